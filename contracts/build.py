#!/usr/bin/env python3
"""Write the contract files the extractor reads into OUTDIR.

`*.rs` and `*.vc` are copied. `*.in` are expanded once per codec: `{V}` `{enc}` ... stand for the
names of the v2 or of the v1 codec. `layout.txt` is expanded into the contracts of the field-wise
codecs. Nothing here looks at the code."""
import os, re, shutil, sys

here = os.path.dirname(os.path.abspath(__file__))
V2 = dict(V="", mod="v2", encode="encode", decode="decode", enc="enc", dec="dec", all="enc_all", decn="dec_n", lnone="lemma_dec_n_none", Codec="Codec", rt="rt", wf="wf")
V1 = dict(V="V1", mod="v1", encode="encode_v1", decode="decode_v1", enc="enc1", dec="dec1", all="enc1_all", decn="dec1_n", lnone="lemma_dec1_n_none", Codec="Codec1", rt="rt1", wf="wf1")


def subst(t, d):
    return re.sub(r"\{(\w+)\}", lambda m: d[m.group(1)] if m.group(1) in d else m.group(0), t)


def each(t):
    """`@@each a b c: name` ... `@@done` repeats the text with {name} bound; `@@each a,1 b,2: x,y` binds two"""
    def one(names, vals, body):
        for n, v in zip(names.split(","), vals.split(",")):
            body = body.replace("{%s}" % n, v.replace("~", " "))
        return body
    return re.sub(r"(?ms)^@@each (.*?): ([\w,]+)\n(.*?)^@@done\n", lambda m: "".join(one(m.group(2), x, m.group(3)) for x in m.group(1).split()), t)


def literals(t):
    """`{b:text}` is the bytes of the text, `{s:text}` the same padded with zeros to 16 bytes"""
    t = re.sub(r"\{b:([^}]*)\}", lambda m: "seq![%s]" % ", ".join("%du8" % c for c in m.group(1).encode()), t)
    return re.sub(r"\{s:([^}]*)\}", lambda m: "seq![%s]" % ", ".join("%du8" % c for c in m.group(1).encode().ljust(16, b"\0")), t)


SPECIFIER = """@@ fn KEY
    ensures NAME.0@ == {s:TEXT},
@loops 1
@before 0
proof { assert(src@ =~= {b:TEXT}); }
@loop 0
    invariant index <= len, len == src@.len(), src@ == {b:TEXT}, buf@.len() == 16,
        forall|k: int| 0 <= k < index ==> buf@[k] == src@[k],
        forall|k: int| index <= k < 16 ==> buf@[k] == 0,
    decreases len - index,
@after 0
proof { assert(buf@ =~= {s:TEXT}); }
"""


def specifiers(t):
    """`@@specifier KEY NAME: text`: the contract of a constant made by the `specifier!` macro"""
    return re.sub(r"(?m)^@@specifier (\S+) (\S+): (.*)\n", lambda m: SPECIFIER.replace("KEY", m.group(1)).replace("NAME", m.group(2)).replace("TEXT", m.group(3)), t)


def layout(text):
    out, lem = [], []
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        head, fields = line.split(":=")
        ver, ty = head.split()
        d = V2 if ver == "v2" else V1
        modp, name = ty.rsplit("::", 1)
        fs = fields.split()
        tuple_ = all(f.isdigit() for f in fs)
        enc = " + ".join(f"self.{f}.{d['enc']}()" for f in fs) or "seq![]"
        if len(fs) > 1:
            enc = " + ".join(f"(self.{f}.{d['enc']}()" for f in fs[:-1]).replace(" + (", " + (") + f" + self.{fs[-1]}.{d['enc']}()" + ")" * (len(fs) - 1)
        var = [f"f{f}" if tuple_ else f for f in fs]
        ctor = f"{name}({', '.join(var)})" if tuple_ else f"{name} {{ {', '.join(fs)} }}"
        body = f"Some(({ctor}, b))"
        for v in reversed(var):
            body = f"match {d['V']}SiaDecodable::{d['dec']}(b) {{ None => None, Some(({v}, b)) => {body} }}"
        E, D = d["V"] + "SiaEncodable", d["V"] + "SiaDecodable"
        out.append(f"""@@ impl {modp}::<{name} as {E}>
open spec fn {d['enc']}(&self) -> Seq<u8> {{ {enc} }}
@@ fn {modp}::<{name} as {E}>::{d['encode']}
@start
broadcast use crate::spec::lemma_assoc;
@@ impl {modp}::<{name} as {D}>
open spec fn {d['dec']}(b: Seq<u8>) -> Option<(Self, Seq<u8>)> {{ {body} }}
""")
        wf = " && ".join(f"crate::lemmas::{d['Codec']}::{d['wf']}(&self.{f})" for f in fs)
        # suffixes s_i of the encoding, and r_i = s_i + rest
        n = len(fs)
        steps = f"        let s{n-1} = self.{fs[-1]}.{d['enc']}();\n"
        for i in reversed(range(n - 1)):
            steps += f"        let s{i} = self.{fs[i]}.{d['enc']}() + s{i+1};\n"
        for i in range(n - 1):
            steps += f"        crate::spec::lemma_assoc(self.{fs[i]}.{d['enc']}(), s{i+1}, rest);\n"
        for i, f in enumerate(fs):
            r = "rest" if i == n - 1 else f"s{i+1} + rest"
            steps += f"        crate::lemmas::{d['Codec']}::{d['rt']}(&self.{f}, {r});\n"
        lem.append(f"""impl crate::lemmas::{d['Codec']} for crate::{ty} {{
    open spec fn {d['wf']}(&self) -> bool {{ {wf} }}
    proof fn {d['rt']}(&self, rest: Seq<u8>) {{
        broadcast use crate::spec::group_spec;
{steps}    }}
}}
""")
    return "".join(out), "".join(lem)


def layout_json(text):
    """`TYPE := key=field[?!][:with] ..`: the contract of a derived Serialize"""
    out = []
    ser = "crate::shim_serde::"
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        ty, fields = [x.strip() for x in line.split(":=")]
        modp, name = ty.rsplit("::", 1)
        ok, js, keys = [], "", set()
        for f in fields.split():
            key, f = f.split("=")
            assert key not in keys
            keys.add(key)
            f, _, w = f.partition(":")
            opt = f[-1] if f[-1] in "?!" else ""
            f = f.rstrip("?!")
            at = "@" if w in ("base64", "base64s", "times") else ""
            v = f"{ser}{w}_json(self.{f}{at})" if w else f"{ser}Serialize::json(&self.{f})"
            ok.append(f"{ser}{w}_ok(self.{f}{at})" if w else f"{ser}Serialize::jok(&self.{f})")
            ins = f'o.insert("{key}"@, {v})'
            cond = {"?": f"self.{f}@.len() == 0", "!": f"self.{f} is None"}.get(opt)
            js += f"let o = if {cond} {{ o }} else {{ {ins} }}; " if cond else f"let o = {ins}; "
        out.append(f"""@@ impl {modp}::<{name} as Serialize>
open spec fn jok(&self) -> bool {{ {" && ".join(ok)} }}
open spec fn json(&self) -> {ser}J {{ let o = {ser}jempty(); {js}{ser}J::Obj(o) }}
""")
        out.append(layout_de(modp, name, fields.split()))
    return "".join(out)


def layout_de(modp, name, fields):
    """the contract of its Deserialize: by key, or by position"""
    ser = "crate::shim_serde::"
    obj, arr = "Some({})", "Some({})"
    parts = []
    for i, f in enumerate(fields):
        key, f = f.split("=")
        f, _, w = f.partition(":")
        opt = f[-1] if f[-1] in "?!" else ""
        f = f.rstrip("?!")
        d = {"?": "crate::spec::vec_from(seq![])", "!": "None", "": None}[opt]
        if w:
            none = f"Some({d})" if d else "None"
            o = f'(if m.contains_key("{key}"@) {{ {ser}{w}_de(m["{key}"@]) }} else {{ {none} }})'
            a = f"(if {i} < a.len() {{ {ser}{w}_de(a[{i}]) }} else {{ {none} }})"
        elif d:
            o, a = f'{ser}dflt(m, "{key}"@, {d})', f"{ser}el_dflt(a, {i}, {d})"
        else:
            o, a = f'{ser}req(m, "{key}"@)', f"{ser}el(a, {i})"
        parts.append((f, o, a))
    lit = f"{name} {{ " + ", ".join(f"{f}: x{i}" for i, (f, _, _) in enumerate(parts)) + " }"
    def nest(k):
        e = f"Some({lit})"
        for i in reversed(range(len(parts))):
            e = f"match {parts[i][k]} {{ None => None, Some(x{i}) => {e} }}"
        return e
    return f"""@@ impl {modp}::<{name} as Deserialize>
open spec fn absent() -> Option<Self> {{ None }}
open spec fn de(d: {ser}J) -> Option<Self> {{
    match d {{
        {ser}J::Obj(m) => {{ {nest(1)} }}
        {ser}J::Arr(a) => if a.len() > {len(parts)} {{ None }} else {{ {nest(2)} }}
        _ => None,
    }}
}}
"""


def main(outdir):
    os.makedirs(outdir, exist_ok=True)
    lemmas = ""
    for f in sorted(os.listdir(here)):
        p = os.path.join(here, f)
        if f.endswith(".rs") or f.endswith(".vc"):
            t = literals(specifiers(each(open(p).read())))
            open(os.path.join(outdir, f), "w").write(t)
        elif f.endswith(".rsin"):
            t = literals(specifiers(each(open(p).read())))
            head = "pub mod lemmas {\nuse vstd::prelude::*;\nuse crate::spec::*;\nuse crate::encoding::*;\n"
            open(os.path.join(outdir, f[:-2]), "w").write(head + "".join(subst(t, d) for d in (V2, V1)) + "} // lemmas\n")
        elif f.endswith(".in"):
            t = literals(specifiers(each(open(p).read())))
            open(os.path.join(outdir, f[:-3] + ".vc"), "w").write("".join(subst(t, d) for d in (V2, V1)))
        elif f == "layout_json.txt":
            open(os.path.join(outdir, "layout_json.vc"), "w").write(layout_json(open(p).read()))
        elif f == "layout.txt":
            vc, lem = layout(open(p).read())
            open(os.path.join(outdir, "layout.vc"), "w").write(vc)
            open(os.path.join(outdir, "91_layout_lemmas.rs"), "w").write("pub mod layout_lemmas {\nuse vstd::prelude::*;\nuse crate::encoding::*;\n" + lem + "}\n")


main(sys.argv[1])
