//! Request objects are processed only when typed as authorization requests.
use crate::fx::*;
use crate::vsym::*;
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};

const TYP: &str = "oauth-authz-req+jwt";
fn go(outer: Option<String>, token: String, by_ref: bool, inner_known: bool) -> bool {
    let (ind, http) = if by_ref {
        (RequestIndirection::ByReference { request_uri: ["https://v/ro", "https://v.example/r/1.jwt?typ=oauth-authz-req%2Bjwt", "http://localhost:8080/request.jwt", "https://v/ro#f"][token.len() % 4].parse().unwrap() }, Http::answering(200, token.clone().into_bytes()))
    } else { (RequestIndirection::ByValue { request: token.clone() }, Http::none()) };
    let w = W::new(metadata(r#""client_id_prefixes_supported":["redirect_uri","a","xredirect_uri"]"#), http, true);
    let ar = AuthorizationRequest { client_id: outer, request_indirection: ind };
    let r = block_on(ar.resolve_request(&w.http));
    outcome(&r);
    if let Ok((_, t)) = &r { check(t.as_ref().map_or(false, |t| eq(t, &token)), "another token than the received one was resolved"); }
    let v = block_on(ar.validate(&w));
    outcome(&v);
    if inner_known { check(v.is_ok() == r.is_ok(), "resolving and validating disagree on the type of the request object"); }
    else { check(!v.is_ok() || r.is_ok(), "validation accepted a request object that does not resolve"); }
    if r.is_err() { check(w.calls.0.borrow().is_empty(), "a request object of another type reached a verifier"); }
    r.is_ok()
}
fn payload(id: &str) -> String { format!(r#"{{"client_id":"{id}","nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r"}}"#) }
fn judge(ok: bool, allowed: bool) {
    cover(if ok { "accepted" } else { "rejected" });
    check(ok == allowed, if allowed { "a request object of the right type was rejected" } else { "a request object of another type was accepted" });
}
const TCH: &str = IDCHARS;
crate::entries! {
    // what was decided before does not matter
    c04_again {
        let by_ref = flag();
        let (a, b) = (choose(4), choose(4));
        let id = pick(&["a", "x509_hash:a"]);
        let c = string(1, TCH);
        for k in [a, b, a] {
            let typ = match k { 0 => r#","typ":"oauth-authz-req+jwt""#.to_string(), 1 => r#","typ":"JWT""#.into(), 2 => String::new(), _ => format!(r#","typ":"oauth-authz-req+jw{c}""#) };
            let ok = go(Some(id.into()), jwt(&format!(r#"{{"alg":"ES256"{typ}}}"#), &payload(id), "c2ln"), by_ref, id == "a");
            judge(ok, k == 0 || k == 3 && eq(&c, "t"));
        }
    }
    // any typ text, with any client but a redirect_uri one
    c04_typ {
        let n = pick(if thorough() { &[0, 3, 17, 18, 19, 20, 21, 24] } else { &[3, 18, 19, 20] });
        let typ = string(n, TCH);
        let hdr = match choose(3) { 0 => format!(r#"{{"alg":"ES256","typ":"{typ}"}}"#), 1 => format!(r#"{{"typ":"{typ}","alg":"none"}}"#), _ => format!(r#"{{"kid":"k","typ":"{typ}","cty":"{TYP}","x5c":[],"alg":"ES384"}}"#) };
        let id = string(2, "abr_");
        let ok = go(if flag() { Some(id.clone()) } else { None }, jwt(&hdr, &payload(&id), "c2ln"), flag(), true);
        judge(ok, eq(&typ, TYP));
    }
    // any text as type, algorithm or client
    c04_any {
        let a = any();
        let (typ, alg, id) = match choose(3) { 0 => (a.as_str(), "ES256", "ab"), 1 => ("JWT", a.as_str(), "a:b"), _ => ("jwt", "none", a.as_str()) };
        let ok = go(Some(id.into()), jwt(&format!(r#"{{"alg":"{alg}","typ":"{typ}"}}"#), &payload(id), "c2ln"), a.len() % 2 == 0, id.len() < 4 && id != a);
        judge(ok, eq(typ, TYP) | (id.len() > 12 && eq(&id[..13], "redirect_uri:")));
    }
    // the type with a character of any class more or other at any place, with what media types come with, and long ones
    c04_near {
        let typ = match choose(4) {
            0 => near(TYP),
            1 => format!("{}{TYP}{}", pick(&["", "application/", "Application/", "jwt;"]), pick(&["", ";charset=utf-8", "; q=1", " ", "\\n", "\\u0000", ",JWT"])),
            2 => format!("{TYP}{}{}", filler(300), string(1, TCH)),
            _ => pick(&["oauth-authz-req", "jwt", "JWT", "at+jwt", "oauth-authz-req+JWT", "OAUTH-AUTHZ-REQ+JWT", "oauth-authz-req+jwt+jwt", "kb+jwt", "dc+sd-jwt", "oauth-authz-request+jwt", "openid4vci-proof+jwt"]).into(),
        };
        let id = pick(&["ab", "a:b", "redirect_uri", "xredirect_uri:x"]);
        let ok = go(Some(id.into()), jwt(&format!(r#"{{"alg":"ES256","typ":"{typ}"}}"#), &payload(id), "c2ln"), typ.len() % 2 == 0, true);
        judge(ok, eq(&typ, TYP));
    }
    // typ missing or of another JSON type
    c04_untyped {
        let other = pick(&["cty", "Typ", "TYP", "type", "crit", "typ ", "kid", "use"]);
        let hdr = match choose(9) {
            0 => r#"{"alg":"ES256"}"#.to_string(), 1 => "{}".into(), 2 => r#"{"alg":"ES256","typ":null}"#.into(), 3 => format!(r#"{{"alg":"ES256","typ":["{TYP}"]}}"#),
            4 => format!(r#"{{"alg":"ES256","{other}":"{TYP}"}}"#), 5 => r#"{"typ":true,"alg":"none"}"#.into(), 6 => format!(r#"{{"alg":"none","typ":{{"{TYP}":"{TYP}"}}}}"#),
            7 => format!(r#"{{"alg":"{TYP}","jwk":{{"typ":"{TYP}"}}}}"#), _ => r#"{"alg":"none","typ":1}"#.into()
        };
        let more = pick(&["", r#""x5c":["AA"],"#, r#""kid":"did:a:b#c","iss":"i","#, r#""jwk":{},"crit":["b64"],"b64":false,"#]);
        let hdr = if hdr.len() > 2 { hdr.replacen('{', &format!("{{{more}"), 1) } else { hdr };
        let id = string(2, "abr_");
        let ok = go(if flag() { Some(id.clone()) } else { None }, jwt(&hdr, &payload(&id), "c2ln"), flag(), true);
        judge(ok, false);
    }
    // whatever else the request says, and wherever it is from
    c04_beside {
        let typ = pick(&[r#","typ":"JWT""#, "", r#","typ":null"#, r#","typ":["oauth-authz-req+jwt"]"#, r#","typ":"oauth-authz-req""#, r#","typ":"oauth-authz-req+jwt""#]);
        let (which, alg) = (flag(), pick(&[("ES256", "c2ln"), ("none", ""), ("EdDSA", "c2ln"), ("none", "c2ln")]));
        let extra = if which { "" } else { pick(&["", r#","kid":"k","exp":1"#, r#","jwk":{"kty":"EC","crv":"P-256","x":"AA","y":"AA"}"#, r#","trust_chain":["a"],"jku":"https://v/j""#, r#","client_id":"redirect_uri:x""#, r#","x5c":["AA"],"cty":"oauth-authz-req+jwt""#]) };
        let id = string(2, "ab_");
        let p = payload(&id);
        let ok = go(if flag() { Some(id.clone()) } else { None }, jwt(&format!(r#"{{"alg":"{}"{typ}{extra}}}"#, alg.0), &format!("{}{}}}", &p[..p.len() - 1], if which { beside() } else { "" }), alg.1), flag(), true);
        judge(ok, typ.ends_with("req+jwt\""));
    }
    // the relaxation: exactly the clients whose identifier starts with redirect_uri:
    c04_relaxed {
        let n = pick(if thorough() { &[0, 12, 13, 14, 15] } else { &[12, 13, 14] });
        let id = string(n, IDCHARS);
        let hdr = match choose(3) { 0 => r#"{"alg":"none"}"#, 1 => r#"{"alg":"none","typ":"JWT"}"#, _ => HDR };
        let by_ref = flag();
        let ok = go(Some(id.clone()), jwt(hdr, &payload(&id), ""), by_ref, false);
        let relaxed = n >= 13 && eq(&id[..13], "redirect_uri:");
        if relaxed { cover("relaxed"); }
        judge(ok, relaxed || hdr == HDR);
    }
    // the relaxation follows the outer identifier, and the inner one has to agree with it
    c04_relaxed_needs_agreement {
        let inner = match choose(4) { 0 => payload("a:b"), 1 => payload("ab"), 2 => payload(&format!("redirect_uri:{}", string(2, "xy"))), _ => r#"{"nonce":"n","response_mode":"direct_post","response_type":"vp_token","response_uri":"https://v/r"}"#.into() };
        let w = W::new(metadata(r#""client_id_prefixes_supported":["redirect_uri","a"]"#), Http::none(), true);
        let outer = match choose(3) { 0 => None, 1 => Some(format!("redirect_uri:{}", string(2, "xy"))), _ => Some(string(3, "ab:")) };
        let hdr = if flag() { r#"{"alg":"none"}"# } else { r#"{"alg":"none","typ":"JWT"}"# };
        let r = block_on(AuthorizationRequest { client_id: outer, request_indirection: RequestIndirection::ByValue { request: jwt(hdr, &inner, "") } }.validate(&w));
        outcome(&r);
        if let Ok(o) = &r {
            cover("untyped accepted");
            check(o.client_id().map_or(false, |c| c.0.starts_with("redirect_uri:")), "an untyped request object was accepted for a client without the redirect_uri prefix");
        } else { cover("untyped rejected"); }
    }
    // tokens that are not three dot-separated parts with a readable header
    c04_malformed {
        let good = b64url(HDR);
        let p = b64url(payload("redirect_uri:x"));
        let t = match choose(9) {
            0 => format!("{good}.{p}"),
            1 => good.clone(),
            2 => String::new(),
            3 => format!("{good}.{p}.c2ln.x"),
            4 => format!("{good}=.{p}.c2ln"),
            5 => format!("*{good}.{p}.c2ln"),
            6 => format!("{}.{p}.c2ln", b64url(format!(r#"["typ","{TYP}"]"#))),
            7 => format!("{}.{p}.c2ln", b64url(&HDR[..HDR.len() - 1])),
            _ => format!("{good}.{}.c2ln", b64url(string(2, "[]{}0a\""))),
        };
        let id = pick(&["redirect_uri:x", "ab"]);
        let ok = go(Some(id.into()), t, flag(), false);
        cover("malformed");
        check(!ok, "a malformed request object was accepted");
    }
}
