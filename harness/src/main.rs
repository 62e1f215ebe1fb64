//! Replay harness: reads one JSON session per line, drives the real crate through its public API
//! (reqwest replaced by a recording stand-in, CLOCK_REALTIME replaced by a scripted clock) and prints what happened.
use cloud_storage_signature::{build_signed_url, BuildSignedUrlOptions, HtmlFormData, PolicyDocumentSigningOptions, SigningKey};
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

struct Clock { secs: i64, nanos: i64, tick: i64 }
static CLOCK: Mutex<Clock> = Mutex::new(Clock { secs: 0, nanos: 0, tick: 0 });
static ARMED: AtomicBool = AtomicBool::new(false);
static EVENTS: Mutex<Vec<Value>> = Mutex::new(Vec::new());
static REPLIES: Mutex<Option<HashMap<String, VecDeque<Value>>>> = Mutex::new(None);

fn advance(c: &mut Clock, s: i64, n: i64) {
    c.nanos += n; c.secs = c.secs.saturating_add(s);
    c.secs = c.secs.saturating_add(c.nanos.div_euclid(1_000_000_000));
    c.nanos = c.nanos.rem_euclid(1_000_000_000);
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ARMED.load(Ordering::SeqCst) && (id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE) {
        let mut c = CLOCK.lock().unwrap_or_else(|e| e.into_inner());
        (*ts).tv_sec = c.secs; (*ts).tv_nsec = c.nanos;
        EVENTS.lock().unwrap_or_else(|e| e.into_inner()).push(json!({"now": [c.secs, c.nanos]}));
        let t = c.tick; advance(&mut c, 0, t);
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}
fn handler(r: &reqwest::Request) -> reqwest::Reply {
    let url = r.url().as_str().to_string();
    let kind = if url.ends_with(":signBlob") { "sign" } else if url.ends_with("/token") { "token" } else if url.ends_with("/email") { "email" } else { "other" };
    let mut c = CLOCK.lock().unwrap_or_else(|e| e.into_inner());
    EVENTS.lock().unwrap_or_else(|e| e.into_inner()).push(json!({"req": {
        "method": r.method().as_str(), "url": url,
        "headers": r.headers().iter().map(|(k, v)| json!([k.as_str(), String::from_utf8_lossy(v.as_bytes())])).collect::<Vec<_>>(),
        "body": r.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned()),
    }, "t": [c.secs, c.nanos]}));
    let reply = REPLIES.lock().unwrap_or_else(|e| e.into_inner()).as_mut().and_then(|m| m.get_mut(kind)).and_then(|q| q.pop_front());
    match reply {
        None => reqwest::Reply { exec_err: true, ..Default::default() },
        Some(v) => {
            if let Some(d) = v.get("delay") { advance(&mut c, d[0].as_i64().unwrap(), d[1].as_i64().unwrap()); }
            reqwest::Reply {
                status: v["status"].as_u64().unwrap_or(200) as u16,
                body: match v.get("hex") { Some(h) => unhex(h.as_str().unwrap()), None => v["body"].as_str().unwrap_or("").as_bytes().to_vec() },
                body_err: v["body_err"].as_bool().unwrap_or(false),
                exec_err: v["exec_err"].as_bool().unwrap_or(false),
            }
        }
    }
}
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn st(v: &Value) -> SystemTime {
    let (s, n) = (v[0].as_i64().unwrap(), v[1].as_u64().unwrap() as u32);
    let base = if s >= 0 { SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(s as u64)) } else { SystemTime::UNIX_EPOCH.checked_sub(Duration::from_secs(s.unsigned_abs())) };
    base.unwrap().checked_add(Duration::from_nanos(n as u64)).unwrap()
}
fn sv(v: &Value) -> String { v.as_str().unwrap().to_string() }
fn pairs(v: &Value) -> Vec<(String, String)> { v.as_array().map(|a| a.iter().map(|p| (sv(&p[0]), sv(&p[1]))).collect()).unwrap_or_default() }
type Keys = HashMap<u64, SigningKey>;
fn make_key(v: &Value) -> Result<SigningKey, String> {
    let o = v.as_object().unwrap();
    let (k, a) = o.iter().next().unwrap();
    Ok(match k.as_str() {
        "sa" => SigningKey::service_account(sv(&a[0]), sv(&a[1])),
        "hmac" => SigningKey::hmac(sv(&a[0]), sv(&a[1])),
        "bt" => {
            match a.as_str() { Some(h) => std::env::set_var("GCE_METADATA_HOST", h), None => std::env::remove_var("GCE_METADATA_HOST") }
            let k = SigningKey::bound_token();
            std::env::remove_var("GCE_METADATA_HOST");
            k
        }
        "json" => SigningKey::service_account_from_str(sv(a)).map_err(|e| e.to_string())?,
        "file" => SigningKey::service_account_from_path(sv(a)).map_err(|e| e.to_string())?,
        _ => panic!("harness: bad key"),
    })
}
fn key_of(keys: &Keys, v: &Value) -> Result<SigningKey, String> {
    if let Some(s) = v.as_u64() { keys.get(&s).cloned().ok_or("harness: no key".to_string()) } else { make_key(v) }
}
fn opt_str(v: &Value) -> Option<String> { v.as_str().map(str::to_string) }
fn opt_st(v: &Value) -> Option<SystemTime> { if v.is_null() { None } else { Some(st(v)) } }
async fn url_call(keys: Keys, o: Value) -> Value {
    let key = match key_of(&keys, &o["key"]) { Ok(k) => k, Err(e) => return json!({"keyerr": e}) };
    let r = build_signed_url(BuildSignedUrlOptions {
        bucket_name: sv(&o["bucket"]), object_name: sv(&o["object"]), region: opt_str(&o["region"]), expires: st(&o["expires"]),
        http_method: sv(&o["method"]), accessible_at: opt_st(&o["at"]), signing_key: key, use_sign_blob: o["blob"].as_bool().unwrap_or(false),
        headers: pairs(&o["headers"]), query_parameters: pairs(&o["query"]),
    }).await;
    match r { Ok(s) => json!({"ok": s}), Err(e) => json!({"err": e.to_string()}) }
}
async fn form_call(keys: Keys, o: Value) -> Value {
    let mut b = HtmlFormData::builder();
    let empty = vec![];
    let fields = o["fields"].as_array().unwrap_or(&empty).clone();
    let opts_at = o["opts_at"].as_u64().unwrap_or(u64::MAX);
    let mut opts = if o["opts"].is_null() { None } else {
        let p = &o["opts"];
        let key = match key_of(&keys, &p["key"]) { Ok(k) => k, Err(e) => return json!({"keyerr": e}) };
        Some(PolicyDocumentSigningOptions { accessible_at: opt_st(&p["at"]), expiration: st(&p["expiration"]), region: opt_str(&p["region"]), signing_key: key, use_sign_blob: p["blob"].as_bool().unwrap_or(false) })
    };
    for (i, f) in fields.iter().enumerate() {
        if i as u64 == opts_at { if let Some(p) = opts.take() { b = b.policy_document_signing_options(p); } }
        let v = &f[1];
        b = match f[0].as_str().unwrap() {
            "acl" => b.acl(sv(v)), "bucket" => b.bucket(sv(v)), "cache_control" => b.cache_control(sv(v)),
            "content_disposition" => b.content_disposition(sv(v)), "content_encoding" => b.content_encoding(sv(v)),
            "content_length" => b.content_length(v.as_u64().unwrap()), "content_type" => b.content_type(sv(v)),
            "expires" => b.expires(sv(v)), "key" => b.key(sv(v)), "success_action_redirect" => b.success_action_redirect(sv(v)),
            "success_action_status" => b.success_action_status(v.as_u64().unwrap() as u16), "x_goog_custom_time" => b.x_goog_custom_time(sv(v)),
            "x_goog_meta" => b.x_goog_meta(sv(&v[0]), sv(&v[1])),
            _ => panic!("harness: bad field"),
        };
    }
    if opts_at >= fields.len() as u64 { if let Some(p) = opts.take() { b = b.policy_document_signing_options(p); } }
    match b.build().await { Ok(d) => json!({"ok": d.into_vec()}), Err(e) => json!({"err": e.to_string()}) }
}
async fn call(keys: Keys, o: Value) -> Value {
    match o["do"].as_str().unwrap() { "url" => url_call(keys, o).await, "form" => form_call(keys, o).await, _ => panic!("harness: bad call") }
}
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().build().unwrap() }
fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    ARMED.store(true, Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.store(false, Ordering::SeqCst);
    r.unwrap_or_else(|e| json!({"panic": pmsg(e)}))
}
#[cfg(feature_hooks)]
fn hook(o: &Value) -> Value {
    use cloud_storage_signature::verif_hooks as h;
    let req = || -> Result<http::Request<()>, String> {
        let mut b = http::Request::builder().method(o["method"].as_str().unwrap_or("GET")).uri(o["uri"].as_str().unwrap_or("/"));
        for (k, v) in pairs(&o["headers"]) { b = b.header(k, http::HeaderValue::from_bytes(v.as_bytes()).map_err(|e| e.to_string())?); }
        b.body(()).map_err(|e| e.to_string())
    };
    match o["fn"].as_str().unwrap() {
        "percent_encode" => json!({"ok": h::percent_encode(o["arg"].as_str().unwrap())}),
        "percent_encode_component" => json!({"ok": h::percent_encode_component(o["arg"].as_str().unwrap())}),
        "hex_encode" => json!({"ok": h::hex_encode(&unhex(o["arg"].as_str().unwrap()))}),
        "canonical_query_string" => match req() { Ok(r) => json!({"ok": h::canonical_query_string(&r)}), Err(e) => json!({"skip": e}) },
        "canonical_request" => match req() { Ok(r) => match h::canonical_request(&r) { Ok(s) => json!({"ok": s}), Err(e) => json!({"err": e}) }, Err(e) => json!({"skip": e}) },
        _ => json!({"skip": "unknown hook"}),
    }
}
#[cfg(not(feature_hooks))]
fn hook(_: &Value) -> Value { json!({"skip": "no hooks"}) }
fn run(o: &Value) -> Value {
    let mut undo: Vec<(String, Option<std::ffi::OsString>)> = Vec::new();
    let mut keys: Keys = HashMap::new();
    let mut out = vec![];
    {
        let mut c = CLOCK.lock().unwrap_or_else(|e| e.into_inner());
        let k = &o["clock"];
        c.secs = k[0].as_i64().unwrap_or(1_700_000_000); c.nanos = k[1].as_i64().unwrap_or(0); c.tick = k[2].as_i64().unwrap_or(0);
        *REPLIES.lock().unwrap_or_else(|e| e.into_inner()) = Some(HashMap::new());
    }
    for op in o["ops"].as_array().unwrap() {
        EVENTS.lock().unwrap_or_else(|e| e.into_inner()).clear();
        let mut res = match op["do"].as_str().unwrap() {
            "key" => guarded(|| match make_key(&op["key"]) { Ok(k) => { keys.insert(op["slot"].as_u64().unwrap(), k); json!({"ok": null}) } Err(e) => json!({"err": e}) }),
            "clone" => { let k = keys[&op["from"].as_u64().unwrap()].clone(); keys.insert(op["slot"].as_u64().unwrap(), k); json!({"ok": null}) }
            "drop" => { keys.remove(&op["slot"].as_u64().unwrap()); json!({"ok": null}) }
            "replies" => {
                let mut g = REPLIES.lock().unwrap_or_else(|e| e.into_inner());
                for k in ["email", "token", "sign"] { if let Some(a) = op[k].as_array() { g.as_mut().unwrap().insert(k.to_string(), a.iter().cloned().collect()); } }
                json!({"ok": null})
            }
            "advance" => { let mut c = CLOCK.lock().unwrap_or_else(|e| e.into_inner()); advance(&mut c, op["by"][0].as_i64().unwrap(), op["by"][1].as_i64().unwrap()); json!({"ok": null}) }
            "clock" => { let mut c = CLOCK.lock().unwrap_or_else(|e| e.into_inner()); c.secs = op["at"][0].as_i64().unwrap(); c.nanos = op["at"][1].as_i64().unwrap(); json!({"ok": null}) }
            "env" => { let n = op["name"].as_str().unwrap().to_string(); undo.push((n.clone(), std::env::var_os(&n))); match op["value"].as_str() { Some(v) => std::env::set_var(op["name"].as_str().unwrap(), v), None => std::env::remove_var(op["name"].as_str().unwrap()) } json!({"ok": null}) }
            "hook" => guarded(|| hook(op)),
            "par" => {
                // interleave the calls on one executor, polled round-robin
                let calls = op["calls"].as_array().unwrap().clone();
                let ks = keys.clone();
                guarded(move || rt().block_on(async move {
                    let n = calls.len();
                    let mut fs: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = Value>>>> = vec![];
                    for c in calls { fs.push(Box::pin(call(ks.clone(), c))); }
                    let mut res: Vec<Value> = vec![Value::Null; n];
                    let mut done = vec![false; n];
                    std::future::poll_fn(|cx| {
                        for i in 0..n {
                            if !done[i] { if let std::task::Poll::Ready(v) = fs[i].as_mut().poll(cx) { res[i] = v; done[i] = true; } }
                        }
                        if done.iter().all(|d| *d) { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
                    }).await;
                    json!({"ok": res})
                }))
            }
            "threads" => {
                let calls = op["calls"].as_array().unwrap().clone();
                let ks = keys.clone();
                guarded(move || {
                    let hs: Vec<_> = calls.into_iter().map(|c| { let ks = ks.clone(); std::thread::spawn(move || rt().block_on(call(ks, c))) }).collect();
                    json!({"ok": hs.into_iter().map(|h| h.join().unwrap_or_else(|e| json!({"panic": pmsg(e)}))).collect::<Vec<_>>()})
                })
            }
            "abort" => {
                // poll a call a number of times and drop it unfinished
                let ks = keys.clone();
                let n = op["polls"].as_u64().unwrap();
                guarded(|| rt().block_on(async move {
                    let mut f = Box::pin(call(ks, op["call"].clone()));
                    let mut left = n;
                    std::future::poll_fn(|cx| {
                        if left == 0 { return std::task::Poll::Ready(json!({"aborted": true})); }
                        left -= 1;
                        match std::future::Future::poll(f.as_mut(), cx) { std::task::Poll::Ready(v) => std::task::Poll::Ready(v), _ => { cx.waker().wake_by_ref(); std::task::Poll::Pending } }
                    }).await
                }))
            }
            _ => { let ks = keys.clone(); guarded(|| rt().block_on(call(ks, op.clone()))) }
        };
        let ev: Vec<Value> = std::mem::take(&mut *EVENTS.lock().unwrap_or_else(|e| e.into_inner()));
        if !ev.is_empty() { res["events"] = json!(ev); }
        out.push(res);
    }
    for (n, v) in undo.into_iter().rev() { match v { Some(v) => std::env::set_var(n, v), None => std::env::remove_var(n) } }
    json!({"id": o["id"], "res": out})
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    reqwest::__set_handler(Some(Arc::new(handler)));
    let stdin = std::io::stdin();
    let mut stdout = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() { stdout.flush().unwrap(); continue; }
        let o: Value = serde_json::from_str(&line).unwrap();
        let r = run(&o);
        serde_json::to_writer(&mut stdout, &r).unwrap();
        stdout.write_all(b"\n").unwrap();
        stdout.flush().unwrap();
    }
}
