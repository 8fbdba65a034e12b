// The parts of svelte-chota: what counts is what they show and what they tell back.
import { native, at } from "verif:rt";
const plain = (tag, slots = ["default"]) => native("chota-" + tag, [], ($$i) => {
  $$i.render = () => [$$i.el(0, tag, { ...$$i.props }, {}, $$i.handlers, [], [], [], null, () => slots.map((s, n) => $$i.slot(s, n, {}, null)))];
});
export const Nav = plain("nav", ["left", "center", "right", "default"]);
export const Card = plain("card", ["header", "default", "footer"]);
export const Button = plain("button");
export const Container = plain("container");
export const Row = plain("row");
export const Col = plain("col");
export const Tag = plain("tag");
export const Field = plain("field");
export const Icon = plain("icon");
export const Details = native("chota-details", [], ($$i) => {
  $$i.render = () => [$$i.el(0, "details", { ...$$i.props }, {}, $$i.handlers, [], [], [], null, () => [
    $$i.el(1, "summary", {}, {}, [], [], [], [], null, () => [$$i.slot("summary", 0, {}, null)]), $$i.slot("default", 1, {}, null)])];
});
export const Input = plain("input");
const control = (type) => native("chota-" + type, ["checked", "group", "value"], ($$i) => {
  const v = { checked: $$i.props.checked, group: $$i.props.group, value: $$i.props.value };
  $$i.get = { checked: () => v.checked, group: () => v.group, value: () => v.value };
  $$i.set = { checked: (x) => { v.checked = x; }, group: (x) => { v.group = x; }, value: (x) => { v.value = x; } };
  $$i.render = () => {
    const grouped = "group" in $$i.binds || "group" in $$i.props;
    const is = grouped ? (Array.isArray(v.group) ? v.group.includes(v.value) : v.group === v.value) : !!v.checked;
    const set = (on) => {
      if (grouped) {
        if (type === "radio") { if (on) v.group = v.value; }
        else v.group = on ? [...(v.group || []).filter((x) => x !== v.value), v.value] : (v.group || []).filter((x) => x !== v.value);
        if ($$i.binds.group) { $$i.last.group = v.group; $$i.props.group = v.group; $$i.binds.group[1](v.group); }
      } else {
        v.checked = on;
        if ($$i.binds.checked) { $$i.last.checked = on; $$i.props.checked = on; $$i.binds.checked[1](on); }
      }
      $$i.a([], 0);
      $$i.fire("change", { type: "change", target: { checked: on, value: v.value } });
    };
    const n = $$i.el(0, type, { checked: is }, {}, [], [], [], [], null, () => [$$i.slot("default", 0, {}, null)]);
    n.toggle = set;
    return [n];
  };
});
export const Checkbox = control("checkbox");
export const Radio = control("radio");
export const Tabs = native("chota-tabs", ["active"], ($$i) => {
  const v = { active: $$i.props.active };
  $$i.get = { active: () => v.active };
  $$i.set = { active: (x) => { v.active = x; } };
  $$i.context.set("chota-tabs", { get: () => v.active, set: (x) => { v.active = x; if ($$i.binds.active) { $$i.last.active = x; $$i.props.active = x; $$i.binds.active[1](x); } $$i.a([], 0); } });
  $$i.render = () => [$$i.el(0, "tabs", {}, {}, [], [], [], [], null, () => [$$i.slot("default", 0, {}, null)])];
});
export const Tab = native("chota-tab", ["tabid"], ($$i) => {
  let t = null;
  for (let p = $$i.parent; p; p = p.parent) if (p.context.has("chota-tabs")) { t = p.context.get("chota-tabs"); break; }
  $$i.set = { tabid: () => {} };
  $$i.render = () => [$$i.el(0, "tab", { tabid: $$i.props.tabid, active: t && t.get() === $$i.props.tabid }, {}, [["click", () => t && t.set($$i.props.tabid)], ...$$i.handlers], [], [], [], null, () => [$$i.slot("default", 0, {}, null)])];
});
export const Modal = native("chota-modal", ["open"], ($$i) => {
  const v = { open: $$i.props.open };
  $$i.get = { open: () => v.open };
  $$i.set = { open: (x) => { v.open = x; } };
  $$i.render = () => v.open ? [$$i.el(0, "modal", {}, {}, [["click", () => $$i.close()]], [], [], [], null, () => [$$i.slot("header", 0, {}, null), $$i.slot("default", 1, {}, null), $$i.slot("footer", 2, {}, null)])] : [];
  $$i.close = () => { v.open = false; if ($$i.binds.open) { $$i.last.open = false; $$i.binds.open[1](false); } $$i.a([], 0); };
});
