package verifkit

import (
	"fmt"
	"os"

	"github.com/mrasu/GravityR/cmd/flag"
	"github.com/spf13/cobra"
	"github.com/spf13/pflag"
)

// HasuraThroughCommand drives the Hasura command the way the CLI does: flags
// and environment variables in, RunE called.
func HasuraThroughCommand(parent *cobra.Command) func(o SuggestOpts, url, secret string) error {
	return func(o SuggestOpts, url, secret string) error {
		var cmd *cobra.Command
		for _, c := range parent.Commands() {
			if c.Name() == "postgres" {
				cmd = c
			}
		}
		if cmd == nil {
			panic("no hasura postgres command")
		}
		flg := cmd.Flags()
		set := func(k, v string) {
			if err := flg.Set(k, v); err != nil {
				panic(fmt.Sprintf("flag %s: %v", k, err))
			}
		}
		set("with-examine", fmt.Sprint(o.Examine))
		set("query", o.Query)
		jv := o.JSONVars
		if jv == "" {
			jv = "{}"
		}
		set("json-variables", jv)
		if sv, ok := flg.Lookup("index").Value.(pflag.SliceValue); ok {
			if err := sv.Replace(append([]string{}, o.Targets...)); err != nil {
				panic(err)
			}
		} else {
			panic("index flag is not a list")
		}
		flag.DbFlag.Output = o.Output
		os.Setenv("HASURA_URL", url)
		os.Setenv("HASURA_ADMIN_SECRET", secret)
		return cmd.RunE(cmd, nil)
	}
}
