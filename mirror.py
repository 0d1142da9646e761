#!/usr/bin/env python3
"""Mirrors /repo into /verif/.cache/mirror in a form that builds offline.

Same transformation as the sandbox's own build (ssi umbrella crate -> its component crates, the
git dependency josekit dropped together with src/core/jwe.rs), plus: dev-dependencies, examples and
tests are left out (the harnesses need only the library), and src/core/jwe.rs is kept aside in
.cache/mirror-extra/jwe.rs so that the jwe harness can compile it against a recording josekit stub.
A file is rewritten only if its content changed."""
import os, re, sys

REPO = os.environ.get("VP_REPO", "/repo")
OUT = sys.argv[1] if len(sys.argv) > 1 else "/verif/.cache/mirror"
EXTRA = OUT + "-extra"

SSI_DEPS = "\n".join([
    'ssi-caips = { version = "0.3", default-features = false }',
    'ssi-claims = { version = "0.6", default-features = false, features = ["w3c", "rsa", "ed25519", "secp256k1", "secp256r1", "eip712"] }',
    'ssi-core = { version = "0.3.0", default-features = false }',
    'ssi-crypto = { version = "0.2.1", default-features = false }',
    'ssi-dids = { version = "0.4", default-features = false, features = ["ripemd-160", "secp256k1", "secp256r1"] }',
    'ssi-eip712 = { version = "0.1", default-features = false }',
    'ssi-json-ld = { version = "0.3.1", default-features = false }',
    'ssi-jwk = { version = "0.4", default-features = false, features = ["ripemd-160"] }',
    'ssi-multicodec = { version = "0.2", default-features = false }',
    'ssi-rdf = { version = "0.1", default-features = false }',
    'ssi-security = { version = "0.1", default-features = false }',
    'ssi-verification-methods = { version = "0.2", default-features = false }',
])
SSI_MODULES = set("caips claims core crypto dids eip712 json_ld jwk multicodec rdf security verification_methods".split())
PRELUDE = {n: "ssi_claims::data_integrity::" + n for n in
           "AnyDataIntegrity AnySuite CryptographicSuite DataIntegrity ProofOptions".split()}
PRELUDE.update((n, "ssi_claims::vc::" + n) for n in ("AnyJsonCredential", "AnyJsonPresentation"))


def item(text):
    m = re.match(r"(\s*)(\w+)", text)
    if m and m.group(2) in SSI_MODULES:
        return m.group(1) + "ssi_" + text[m.end(1):]
    m = re.match(r"(\s*)prelude::(\w+)", text)
    if m and m.group(2) in PRELUDE:
        return m.group(1) + PRELUDE[m.group(2)] + text[m.end():]
    m = re.match(r"(\s*)prelude::\{([^{}]*)\}", text)
    if m:
        names = re.sub(r"\w+", lambda n: PRELUDE.get(n.group(), "ssi::prelude::" + n.group()), m.group(2))
        return m.group(1) + "{" + names + "}" + text[m.end():]
    return re.sub(r"^(\s*)(?=\S)", r"\1ssi::", text)


def group(body):
    out, depth, start = [], 0, 0
    for i, c in enumerate(body + ","):
        depth += (c == "{") - (c == "}")
        if c == "," and not depth:
            out.append(item(body[start:i]))
            start = i + 1
    return ",".join(out)


def ssi_paths(text):
    out, pos = [], 0
    for m in re.finditer(r"(?<![\w:])(?:::)?ssi::", text):
        if m.start() < pos:
            continue
        out.append(text[pos:m.start()])
        pos = m.end()
        if text[pos:pos + 1] == "{":
            depth, end = 1, pos + 1
            while depth and end < len(text):
                depth += (text[end] == "{") - (text[end] == "}")
                end += 1
            out.append("{" + group(text[pos + 1:end - 1]) + "}")
        else:
            end = pos + len(re.match(r"(?:prelude::)?(?:\w+|\{[^{}]*\})?", text[pos:]).group())
            out.append(item(text[pos:end]))
        pos = end
    return "".join(out) + text[pos:]


def edit(rel, text):
    if rel.endswith("Cargo.toml"):
        text = re.sub(r"(?m)^josekit\s*=.*$", "", text)
        text = re.sub(r'(?m)^ssi = \{ version = "0\.14".*$', lambda m: SSI_DEPS, text)
        # the library only: no dev-dependencies, no example or test targets
        text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", text)
        text = re.sub(r"(?ms)^\[\[(?:example|test|bench)\]\]\n.*?(?=^\[|\Z)", "", text)
        text = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[|\Z)", "", text)
        return text
    if rel == "src/core/mod.rs":
        text = re.sub(r"(?m)^pub mod jwe;[ \t]*$", "", text)
    return ssi_paths(text) if "ssi::" in text else text


def outside(rel, text, below=False):
    text = edit(rel, text)
    if "core/util" in rel:
        text = re.sub(r"(?<![\w:$])crate::core::util::", "crate::util::", text)
    text = re.sub(r"(?<![\w:$])crate::(?!util::)", "openid4vp::", text)
    if not below:
        text = re.sub(r"(?<![\w:])super::(?=\w)", "openid4vp::core::", text)
    return text.split("#[cfg(test)]")[0]


def put(path, data):
    try:
        with open(path) as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(data)


def main():
    wanted = {}
    for base in ("src", "openid4vp-frontend/src", "openid4vp-frontend", ""):
        top = os.path.join(REPO, base)
        for d, dirs, names in os.walk(top):
            if base in ("", "openid4vp-frontend"):
                dirs[:] = []
                names = [n for n in names if n in ("Cargo.toml", "build.rs")]
            dirs[:] = [x for x in dirs if x not in ("target", ".git")]
            for n in names:
                rel = os.path.relpath(os.path.join(d, n), REPO)
                try:
                    wanted[rel] = open(os.path.join(REPO, rel)).read()
                except UnicodeDecodeError:
                    pass
    # become modules of the harness crate: the crate's own paths go through openid4vp, josekit and reqwest are the recording stand-ins
    jwe = wanted.pop("src/core/jwe.rs", None)
    if jwe is not None:
        put(os.path.join(EXTRA, "jwe.rs"), outside("src/core/jwe.rs", jwe) + "\nuse crate::jose as josekit;\n")
    util = {"util/mod.rs" if rel == "src/core/util.rs" else rel[len("src/core/"):]: rel for rel in wanted if re.match(r"src/core/util(\.rs$|/)", rel)}
    for to, rel in util.items():
        put(os.path.join(EXTRA, to), outside(rel, wanted[rel], to != "util/mod.rs") + "\n#[allow(unused_imports)]\nuse crate::rq as reqwest;\n")
    for d, dirs, names in os.walk(os.path.join(EXTRA, "util")):
        for n in names:
            if os.path.relpath(os.path.join(d, n), EXTRA) not in util:
                os.remove(os.path.join(d, n))
    for rel, text in wanted.items():
        put(os.path.join(OUT, rel), edit(rel, text))
    for d, dirs, names in os.walk(OUT):
        for n in names:
            rel = os.path.relpath(os.path.join(d, n), OUT)
            if rel not in wanted:
                os.remove(os.path.join(OUT, rel))


main()
