"""Per property: where it runs, how many cases, level, and what counts as seen."""

def S(quick, thorough):
    return {"suggest": {"quick": quick, "thorough": thorough}}

SIM = "the simulated database answers catalogue, plan and DDL requests the way the real one does (harness/kit/sim.go, hasura.go)"
GEN = "statements are drawn from the grammar of harness/kit/sqlgen.go, which stays inside what the tool documents as supported"

def J(quick, thorough):
    return {"jaeger": {"quick": quick, "thorough": thorough}}

def I(quick, thorough):
    return {"pi": {"quick": quick, "thorough": thorough}}

PSIM = "the stand-ins for RDS and Performance Insights answer at the SDK's client interface: times in UTC, start inclusive and end exclusive, tokens for further pages"
JSIM = "the simulated query service answers like Jaeger's api_v3: whole traces with a matching span, one trace per message"

CSIM = "the report's page runs in harness/client: the front end of the tree, with stand-ins for svelte, svelte-chota, apexcharts, mermaid, class-transformer and sql-formatter"

PROPS = {
    "P01": dict(level="fault_enumeration", hosts=S(9000, 200000), assumptions=[SIM],
                rule="a case is one run of a suggest command on a generated catalogue, statement, target list and fault plan (which create/exec/drop/catalogue request fails); distinct = different (database kind, examine flag, fault plan, sequence of request kinds with outcomes)",
                need={"drop_failures": 50, "create_failures": 50, "exec_failures": 50, "runs_without_examine": 100}),
    "P02": dict(level="exploration", hosts=S(2500, 30000), assumptions=[SIM],
                rule="a case is one examination with random server delays or one fault; distinct = different (database kind, fault plan, sequence of request kinds with outcomes)",
                need={"timings": 500, "failed_runs": 50}),
    "P03": dict(level="exploration", hosts=S(9000, 150000), assumptions=[SIM],
                rule="a case is one run with well-formed, malformed or mutated index options or with column names needing quoting; distinct = different (kind, option text) for malformed ones, (kind, examine, explicit, number of targets) otherwise",
                need={"malformed": 200, "odd_names": 200, "created": 500}),
    "P04": dict(level="exploration", hosts=S(36000, 300000), assumptions=[SIM, GEN],
                rule="a case is a generated catalogue and statement; distinct = different (database kind, set of grammar features used, number of expected suggestions)",
                need={"suggestions": 5000}),
    "P05": dict(level="exploration", hosts=S(16000, 200000), assumptions=[SIM, GEN],
                rule="a case is a statement over a catalogue dense in keys and look-alike indexes; distinct = different (kind, grammar features, candidates, candidates left)",
                need={"excluded": 1000, "suggestions": 1000}),
    "P06": dict(level="exploration", hosts=S(4000, 60000), assumptions=[SIM, GEN],
                rule="a case is one command repeated with permuted catalogue answers; distinct = different (kind, grammar features, number of suggestions)",
                need={"repeat_runs": 2000}),
    "P07": dict(level="exploration", hosts=S(40000, 300000), assumptions=[SIM, GEN],
                rule="a case is a generated nested statement; distinct = different (kind, set of grammar features used)",
                need={"with_lateral": 100, "with_correlated": 200, "with_derived": 200, "with_exists": 50, "with_field_subquery": 100, "with_far_reference": 100, "with_alias_again": 100}),
    "P08": dict(level="exploration", hosts=S(12000, 200000), assumptions=["plans are rendered in the layout MySQL 8 prints"],
                rule="a case is a generated plan; distinct = different (tree shape, number of lines)", need={"plan_nodes": 10000}),
    "P09": dict(level="exploration", hosts=S(12000, 200000), assumptions=["plans are rendered in the layout PostgreSQL 14 prints"],
                rule="a case is a generated plan; distinct = different (kind, tree shape, number of lines)", need={"plan_nodes": 10000}),
    "P12": dict(level="exploration", hosts=J(6000, 100000), assumptions=[JSIM],
                rule="a case is one run over up to six generated traces; distinct = different (shape of the shown tree, spans in the trace)",
                need={"trees": 5000, "traces_with_orphans": 200}),
    "P13": dict(level="exploration", hosts=J(2500, 30000), assumptions=[JSIM],
                rule="a case is one run over up to 300 traces; distinct = different (trees found, trees listed)",
                need={"over_100": 100, "found_trees": 10000}),
    "P14": dict(level="exploration", hosts=J(4000, 60000), assumptions=[JSIM],
                rule="a case is one run over up to 20 traces; distinct = different (access count, threshold, shape of the shown tree)",
                need={"at_threshold": 500, "just_over": 500}),
    "P15": dict(level="exploration", hosts=J(5000, 80000), assumptions=[JSIM],
                rule="a case is one run over up to 10 traces; distinct = different (shape of the shown tree, number of services)",
                need={"named": 5000, "with_async_calls": 500}),
    "P16": dict(level="fault_enumeration", hosts=J(4000, 60000), assumptions=[JSIM],
                rule="a case is one period, setting, set of traces and failing search; distinct = different (number of searches, failed, failed half way, traces sent)",
                need={"failed_searches": 200, "traces_in_two_searches": 200}),
    "P17": dict(level="exploration", hosts=I(5000, 60000), assumptions=[PSIM],
                rule="a case is one run over generated load series; distinct = different (list, cells shown, instances, zone offset, minute of the start)",
                need={"points": 20000, "merged": 1000}),
    "P18": dict(level="fault_enumeration", hosts=I(9000, 100000), assumptions=[PSIM],
                rule="a case is one start, set of instances, page size and failing request; distinct = different (mysql instances, instances, malformed, default, page sizes, failing request)",
                need={"failed_requests": 200, "malformed_starts": 50, "covered": 1000, "paged_databases": 50, "default_starts": 50}),
    "P19": dict(level="exploration", hosts=S(12000, 200000), assumptions=[SIM],
                rule="a case is one statement text, refused or acceptable by construction; distinct = different (database kind, class of the text, examine flag, sequence of request kinds with outcomes)",
                need={"refused": 3000, "accepted": 2000}),
    "P20": dict(level="exploration", hosts={**S(15000, 300000), **J(3000, 60000), **I(3000, 60000)}, assumptions=[SIM, JSIM, PSIM],
                rule="a case is one run with a mutated statement, plan, catalogue answer or HTTP answer; distinct = different (database kind, what was mutated, outcome, beginning of the message)",
                need={"ended_with_error": 2000, "ended_with_report": 1000, "mode_statement": 3000, "mode_plan": 500, "odd_answers": 500}),
    "P10": dict(level="exploration", hosts={**S(6000, 100000), **J(1500, 30000), **I(1500, 30000)}, assumptions=[SIM, JSIM, PSIM, "the front-end bundle is replaced by small stand-ins"],
                rule="a case is one run with odd texts and a place for its report (new, existing, missing directory, directory, full device); distinct = different (command, kind of place, examine flag, file name)",
                need={"pages": 4000, "place_old": 1000, "place_full": 300, "place_missing-dir": 300, "place_is-dir": 300}),
    "P11": dict(level="exploration", hosts=S(4000, 60000), assumptions=[SIM, GEN],
                rule="a case is one run followed by the run its report proposes; distinct = different (database kind, examine flag, file name, number of suggestions)",
                need={"proposals": 3000, "second_runs": 3000}),
    "P21": dict(level="fault_enumeration", hosts=S(8000, 120000), assumptions=[SIM],
                rule="a case is one run of the Hasura command with its variables, address, secret and odd answer; distinct = different (mode, odd answer, examine flag, path prefix, sequence of request kinds with outcomes)",
                need={"odd_answers": 1500, "malformed_variables": 500, "graphql_requests": 5000, "catalogue_requests": 5000, "hostile_names": 300}),
    "P22": dict(level="fault_enumeration", hosts=S(1500, 12000), cli=True, race=False, assumptions=[SIM, JSIM, PSIM, "wire-level stand-ins speak the parts of the MySQL and PostgreSQL protocols the drivers use"],
                rule="a case is one run of the built program with its options, environment and at most one defect; distinct = different (command, defect, verbose, exit status)",
                need={"good_runs": 400, "failed_runs": 400, "logins": 150, "aws_requests": 1000}),
    "P23": dict(level="exploration", hosts=S(1200, 12000), cli=True, race=False, assumptions=[SIM],
                rule="a case is one run of the built program with a marked secret; distinct = different (command, defect, verbose, exit status)",
                need={"failed_runs": 300, "verbose_runs": 300, "places_searched": 2000, "unusable_addresses_with_password": 10}),
    "P24": dict(level="exploration", hosts=S(6000, 60000), client=True, race=False, assumptions=[SIM, CSIM],
                rule="a case is one report of a suggest command, its page opened and some bars pointed at; distinct = different (database kind, examine flag, shape of the plan)",
                need={"pages_opened": 1000, "bars": 5000, "tooltips": 2000, "hovers": 2000, "exam_rows": 500}),
    "P25": dict(level="exploration", hosts={**S(2400, 30000), **I(1200, 15000)}, client=True, race=False, assumptions=[SIM, PSIM, CSIM, "bash stands for the reader's shell; gr and curl are stand-ins that print how they were called"],
                rule="a case is one report, its page opened, suggestions ticked or bars clicked, and every command shown run in a shell; distinct = different (database kind, examine flag, number of suggestions, kind of output path)",
                need={"pages_opened": 1000, "commands_run": 3000, "statements": 500, "curl_commands": 100}),
    "P26": dict(level="exploration", hosts=I(1600, 20000), client=True, race=False, assumptions=[PSIM, CSIM],
                rule="a case is one load report, its page opened, both tabs, databases chosen, bars pointed at and clicked; distinct = different (tab, chart, databases chosen, series, cells)",
                need={"pages_opened": 1000, "timeline_points": 10000, "ranked": 1000, "tooltips": 1000, "raw_rows": 500, "no_raw_statement": 20}),
    "P27": dict(level="exploration", hosts=J(3000, 40000), client=True, race=False, assumptions=[JSIM, CSIM],
                rule="a case is one trace report, its page opened and some diagrams shown and closed; distinct = different shapes of the drawn call trees",
                need={"pages_opened": 1000, "rows": 3000, "diagrams": 2000, "shortened": 100, "empty_lists": 100}),
}
