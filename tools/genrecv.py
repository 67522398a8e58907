#!/usr/bin/env python3
"""Generates receiver contracts' execute enums, each once with the repository's macro and once with the callback variant
written out by hand (the control), and a table of both. usage: genrecv.py SEED COUNT OUT"""
import json, random, sys

seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
r = random.Random(f"receiver-{seed}")
TYPES = {  # Rust type -> JSON shape
    "String": "str", "u64": "u64", "u8": "u8", "bool": "bool", "::cosmwasm_std::Uint128": "u128", "::cosmwasm_std::Binary": "b64",
    "Option<String>": "opt_str", "Vec<String>": "strs", "Option<Box<u64>>": "opt_u64", "super::Inner": "inner", "Vec<super::Inner>": "inners",
    "::cosmwasm_std::Coin": "coin", "(u8, String)": "pair", "::std::collections::BTreeMap<String, String>": "map", "::cosmwasm_std::Empty": "empty",
}
NAMES = ["Receive", "ReceiveIca", "IcaCallback", "Callback", "ReceiveIcaCallbacks", "Transfer", "Mint", "Burn", "Send", "UpdateConfig", "A", "Ab", "HTTPCall",
         "Release2", "SendCosmosMsgs", "CreateIcaContract", "OnAcknowledgementPacketCallback", "OnTimeoutPacketCallback", "X1Y2", "Right", "Left", "Self_", "Type", "Propose"]
FIELDS = ["amount", "to", "ica_id", "callback", "r#type", "original_packet", "relayer", "channel", "msg", "a", "right", "x_1", "query_result"]


def snake(n):
    s = ""
    for i, c in enumerate(n):
        if c.isupper() and i > 0:
            s += "_"
        s += c.lower()
    return s


def wire_field(f):
    return f.removeprefix("r#")


def variant(name, generic):
    """(source, shape or None)"""
    doc = r.choice(["", "", "/// A message.\n", "/** block\ndoc */\n", "#[doc = \"text\"]\n", "#[allow(dead_code)]\n"])
    wire, attr = snake(name), ""
    if r.random() < 0.12:
        wire = r.choice(["renamed", "Receive_X", "receive_ica", "r"]) + str(r.randint(0, 99))
        attr = f'#[serde(rename = "{wire}")]\n'
    elif r.random() < 0.08:
        attr = '#[serde(alias = "' + name + 'Alias")]\n'
    ty = lambda: r.choice(list(TYPES)) if not (generic and r.random() < 0.3) else "T"
    shape = lambda t: "u64" if t == "T" else TYPES[t]
    k = r.choice(["unit", "struct", "struct", "struct", "new", "tuple", "empty"])
    if k == "unit":
        return doc + attr + name, [wire, "unit"]
    if k == "empty":
        return doc + attr + name + " {}", [wire, "struct", []]
    if k == "new":
        t = ty()
        return f"{doc}{attr}{name}({t})", [wire, "new", shape(t)]
    if k == "tuple":
        ts = [ty() for _ in range(r.randint(2, 3))]
        return f"{doc}{attr}{name}({', '.join(ts)})", [wire, "tuple", [shape(t) for t in ts]]
    fs = r.sample(FIELDS, r.randint(1, 5))
    src, sh = [], []
    for f in fs:
        t = ty()
        a = ""
        w = wire_field(f)
        opt = "req"
        if r.random() < 0.15 and t != "T":
            a += "#[serde(default)] "
            if t in ("::cosmwasm_std::Coin", "super::Inner"):
                a = ""
            else:
                opt = "default"
        if r.random() < 0.1:
            w = "f_" + w
            a += f'#[serde(rename = "{w}")] '
        if r.random() < 0.2:
            a = "/// field\n" + a
        src.append(f"{a}{f}: {t}")
        sh.append([w, shape(t), opt])
    return f"{doc}{attr}{name} {{ {', '.join(src)}{r.choice(['', ','])} }}", [wire, "struct", sh]


def enum(i):
    generic = r.random() < 0.15
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 12, 20])
    names = r.sample(NAMES, n)
    if generic and n == 0:
        generic = False
    vs = [variant(x, generic) for x in names]
    if generic and not any("T" in v[0].replace("Type", "").split("(")[-1].split(" {")[-1] and ("(T" in v[0] or ", T" in v[0] or ": T" in v[0]) for v in vs):
        vs.append(("Gen(T)", ["gen", "new", "u64"]))
    seen, uniq = set(), []
    for v in vs:
        if v[1][0] not in seen:
            seen.add(v[1][0])
            uniq.append(v)
    vs = uniq
    # sometimes a variant that configuration removes
    hidden = '#[cfg(any())]\nHidden { a: NoSuchType },\n' if r.random() < 0.1 else ""
    body = "".join(v[0] + ",\n" for v in vs)
    pos = r.randint(0, 1)
    body = hidden + body if pos else body + hidden
    if not hidden and body and r.random() < 0.3:
        body = body[:-2] + "\n"  # no trailing comma
    gen, where = ("<T>", "") if generic else ("", "")
    if generic and r.random() < 0.4:
        where = " where T: ::std::clone::Clone"
    serde = "cw" if r.random() < 0.75 else "plain"
    derive = "#[::cosmwasm_schema::cw_serde]\n" if serde == "cw" else (
        "#[derive(::serde::Serialize, ::serde::Deserialize, Clone, Debug, PartialEq, ::schemars::JsonSchema)]\n#[serde(rename_all = \"snake_case\")]\n")
    extra = r.choice(["", "", "/// The execute messages.\n", "#[allow(clippy::large_enum_variant)]\n", "#[non_exhaustive]\n", "#[deny(missing_debug_implementations)]\n"])
    own = not generic and r.random() < 0.15
    ownable = "#[::cw_ownable::cw_ownable_execute]\n" if own else ""
    name = r.choice(["ExecuteMsg", "ExecuteMsg", "Right", "Msg", "E"])
    vis = r.choice(["pub ", "pub ", "pub(crate) ", ""])
    attrs = [extra + derive, derive + extra][r.randint(0, 1)]
    # the repository's macro, first or after another merging macro
    m = "#[::repo_derive::ica_callback_execute]\n" if r.random() < 0.85 else "#[::cw_ica_controller::helpers::ica_callback_execute]\n"
    head = (m + ownable if r.random() < 0.5 else ownable + m) + attrs
    cb = "ReceiveIcaCallback(::cw_ica_controller::types::callbacks::IcaControllerCallbackMsg),\n"
    ctl = body.rstrip()
    if ctl and not ctl.endswith(","):
        ctl += ","
    inst = "<u64>" if generic else ""
    decode = f"pub fn decode(b: &[u8]) -> ::std::result::Result<(String, String), String> {{ super::read::<{name}{inst}>(b) }}\n"
    shape = json.dumps([v[1] for v in vs])
    return f"""mod macro_{i} {{
#[allow(unused_imports)] use super::*;
{head}{vis}enum {name}{gen}{where} {{
{body}}}
{decode}}}
""", f"""mod control_{i} {{
#[allow(unused_imports)] use super::*;
{ownable}{attrs}{vis}enum {name}{gen}{where} {{
{ctl}
{cb}}}
{decode}}}
""", shape


ms, cs, table = "", "", ""
for i in range(count):
    a, b, s = enum(i)
    ms += '#[cfg(feature = "macros")]\n' + a
    cs += b
    table += f'Receiver {{ #[cfg(feature = "macros")] with_macro: macro_{i}::decode, #[cfg(not(feature = "macros"))] with_macro: control_{i}::decode, control: control_{i}::decode, shape: {json.dumps(s)} }},\n'
open(out, "w").write(ms + cs + f"pub static RECEIVERS: &[Receiver] = &[\n{table}];\n")
