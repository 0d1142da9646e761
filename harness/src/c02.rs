//! Only advertised client identifier prefixes are served.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};

fn run(id: &str, extra: &str) -> (bool, usize) { run_in(choose(4), id, extra) }
fn run_in(ctx: usize, id: &str, extra: &str) -> (bool, usize) {
    let w = W::new(metadata(extra), Http::none(), true);
    let rest = [r#""nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r""#, r#""nonce":"n","response_mode":"dc_api","response_type":"vp_token","state":"s""#][ctx % 2];
    let ind = if ctx < 2 { RequestIndirection::Direct(obj(&format!("{{{rest}}}"))) } else { RequestIndirection::ByValue { request: jwt(HDR, &format!(r#"{{"client_id":"{id}",{rest}}}"#), "c2ln") } };
    let ar = AuthorizationRequest { client_id: Some(id.into()), request_indirection: ind };
    let r = block_on(ar.validate(&w));
    outcome(&r);
    let n = w.calls.0.borrow().len();
    (r.is_ok(), n)
}
const ALL: &[&str] = &["pre-registered", "redirect_uri", "openid_federation", "decentralized_identifier", "verifier_attestation", "x509_san_dns", "x509_san_uri", "x509_hash", "did", "https", "http", "entity_id", "web-origin", "urn", "client", "x509", "jwt", "openid4vp", "haip", "mdoc-openid4vp", "preregistered"];
const CH: &str = IDCHARS_NOCOLON;
fn judge(listed: bool, (ok, calls): (bool, usize)) {
    cover(if listed { "advertised" } else { "not advertised" });
    check(ok == listed, if listed { "a request whose prefix the wallet advertises was rejected" } else { "a request whose prefix the wallet does not advertise was accepted" });
    check((calls == 1) == listed, if listed { "a request whose prefix is advertised was not verified" } else { "a verifier ran for a prefix that is not advertised" });
}
crate::entries! {
    // prefix and list entries symbolic
    c02_list {
        let k = choose(bound(3, 4));
        let plen = pick(if thorough() { &[0, 1, 2, 3, 9, 12, 13] } else { &[0, 2, 9, 12] });
        let p = string(plen, CH);
        let mut list = vec![];
        for _ in 0..k {
            let d = choose(3);
            let l = if d == 0 { plen } else if d == 1 { plen + 1 } else { plen.saturating_sub(1) };
            list.push(string(l, CH));
        }
        let text: Vec<String> = list.iter().map(|s| format!("\"{s}\"")).collect();
        let out = run(&format!("{p}:{}", string(2, IDCHARS)), &format!(r#""client_id_prefixes_supported":[{}]"#, text.join(",")));
        let listed = list.iter().any(|x| x.as_bytes() == p.as_bytes());
        if eq(&p, "origin") { return; }
        judge(listed, out);
    }
    // what was decided before does not matter
    c02_again {
        let l = |k: usize| [r#""client_id_prefixes_supported":["x509_hash"]"#, r#""client_id_prefixes_supported":["redirect_uri"]"#, r#""client_id_prefixes_supported":[]"#, r#""client_id_prefixes_supported":["zz","x509_hash"]"#][k];
        let (a, b, ctx) = (choose(4), choose(4), choose(4));
        let c = string(1, IDCHARS);
        for k in [a, b, a] { judge(k % 3 == 0, run_in(ctx, &format!("x509_hash:{c}"), l(k))); }
        cover("again");
    }
    // long lists, and entries near the prefix: a character of any class more, less or other, repeated, combined
    c02_near {
        let p = pick(&["x509_hash", "decentralized_identifier", "redirect_uri", "pre-registered", "z"]);
        let e = match choose(5) {
            0 => near(p),
            1 => format!("{p}:"),
            2 => format!("{p}:x"),
            3 => format!("{p},{p}"),
            _ => pick(&["*", "", "null", ".*", "x509_san_dns", "did", "x509_", "client_id"]).into(),
        };
        let mut list: Vec<String> = ["x509_san_dns", "openid_federation", "verifier_attestation", "entity_id", "q", "x509_has", "web-origin", "redirect_ur", "decentralized_identifie"].iter().map(|s| s.to_string()).collect();
        let i = pick(&[0, list.len()]);
        list.insert(i, e.clone());
        if flag() { list.truncate(i + 1); }
        let text: Vec<String> = list.iter().map(|s| format!("\"{s}\"")).collect();
        let out = run_in(p.len() % 4, &format!("{p}:{}", string(1, IDCHARS)), &format!(r#""client_id_prefixes_supported":[{}]"#, text.join(",")));
        judge(eq(&e, p), out);
    }
    // every prefix with a meaning somewhere, against all the others, and against lists under other names
    c02_others {
        let i = choose(ALL.len());
        let p = ALL[i];
        let all: Vec<String> = ALL.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, s)| format!("\"{s}\"")).collect();
        let ctx = choose(4);
        let (listed, extra) = match choose(4) {
            0 => (false, format!(r#""client_id_prefixes_supported":[{}]"#, all.join(","))),
            1 => (true, format!(r#""client_id_prefixes_supported":[{},"{p}"]"#, all.join(","))),
            2 => (p == "pre-registered", ["client_id_schemes_supported", "client_id_prefixes", "client_id_schemes", "clientIdPrefixesSupported", "client_id_prefix_supported", "client_id_prefixes_supported "].map(|n| format!(r#""{n}":["{p}"]"#)).join(",")),
            _ => (false, format!(r#""client_id_prefixes_supported":["x"],"client_id_schemes_supported":["{p}"],"client_id_scheme":"{p}","{p}":true"#)),
        };
        judge(listed, run_in(ctx, &format!("{p}:{}", string(1, IDCHARS)), &extra));
    }
    // any text as prefix or as entry, of any length
    c02_any {
        if flag() {
            let p = string(choose(bound(25, 41)), CH);
            if eq(&p, "origin") { return; }
            let l = ["x509_hash", "redirect_uri", "z", "decentralized_identifier"];
            judge(l.iter().fold(false, |r, x| r | eq(&p, x)), run_in(p.len() % 4, &format!("{p}:x"), r#""client_id_prefixes_supported":["x509_hash","redirect_uri","z","decentralized_identifier"]"#));
        } else {
            let e = any();
            let p = pick(&["x509_hash", "decentralized_identifier", "redirect_uri", "pre-registered", "zz"]);
            judge(eq(&e, p), run_in(p.len() % 4, &format!("{p}:x"), &format!(r#""client_id_prefixes_supported":["{e}"]"#)));
        }
    }
    // long prefixes that differ from the entry anywhere
    c02_long {
        let n = pick(&[40, 130, 300]);
        let f = filler(n);
        let k = n / 2;
        let p = format!("{}{}{}{}", string(1, CH), &f[..k], string(1, CH), &f[k..]);
        let e = format!("{}{}{}{}", string(1, CH), &f[..k], string(1, CH), if flag() { &f[k..] } else { &f[k..n - 1] });
        let out = run(&format!("{p}:x"), &format!(r#""client_id_prefixes_supported":["x509_hash","{e}"]"#));
        judge(eq(&p, &e), out);
    }
    // no list: the default
    c02_default {
        let n = pick(if thorough() { &[0, 1, 5, 9, 12, 13, 14, 15, 17, 20, 24] } else { &[1, 9, 12, 14, 24] });
        let p = string(n, CH);
        let out = run(&format!("{p}:x"), "");
        judge(eq(&p, "pre-registered"), out);
    }
    // identifiers without a prefix do not need an entry
    c02_unprefixed {
        let id = string(choose(bound(6, 16)), IDCHARS_NOCOLON);
        let extra = pick(&["", r#""client_id_prefixes_supported":[]"#, r#""client_id_prefixes_supported":["x509_hash"]"#]);
        let (ok, calls) = run(&id, extra);
        cover("unprefixed");
        check(ok && calls == 1, "an identifier without prefix was not left to the pre-registered verifier");
    }
    // a list that cannot be read serves nobody
    c02_malformed {
        let p = pick(&["x509_hash", "redirect_uri", "pre-registered", "zz"]);
        let extra = match choose(5) { 0 => format!(r#""{p}""#), 1 => format!(r#"{{"{p}":true}}"#), 2 => format!(r#"["{p}",7]"#), 3 => "null".into(), _ => format!(r#"[["{p}"]]"#) };
        let (ok, calls) = run(&format!("{p}:x"), &format!(r#""client_id_prefixes_supported":{extra}"#));
        cover("malformed");
        check(!ok && calls == 0, "a wallet with an unreadable prefix list accepted a prefixed client");
    }
}
