//! Executes library calls on behalf of the drivers in /verif/lib: one JSON request per input line,
//! one JSON response per output line.  Only public API of the pfp crate is used.

use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::storage_io::FileIO;
use pfp::storage_types::{CharacterSet, CharacterType, Password};
use secrecy::{ExposeSecret, SecretString};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

fn err(error: Error) -> Value {
    let text = format!("{:?}", error);
    let kind: String = text
        .chars()
        .take_while(|c| c.is_ascii_alphanumeric())
        .collect();
    let line = match &error {
        Error::RecoveryCodeExtraData { line } | Error::RecoveryCodeChecksumMismatch { line } => {
            *line as i64
        }
        _ => -1,
    };
    json!({"err": kind, "line": line})
}

fn done(result: Result<Value, Error>) -> Value {
    match result {
        Ok(value) => json!({ "ok": value }),
        Err(error) => err(error),
    }
}

fn charset(mask: u64) -> CharacterSet {
    let mut result = CharacterSet::empty();
    for (bit, kind) in [
        CharacterType::Lower,
        CharacterType::Upper,
        CharacterType::Digit,
        CharacterType::Symbol,
    ]
    .into_iter()
    .enumerate()
    {
        if mask & (1 << bit) != 0 {
            result.insert(kind);
        }
    }
    result
}

fn mask(set: CharacterSet) -> u64 {
    let mut result = 0;
    for (bit, kind) in [
        CharacterType::Lower,
        CharacterType::Upper,
        CharacterType::Digit,
        CharacterType::Symbol,
    ]
    .into_iter()
    .enumerate()
    {
        if set.contains(kind) {
            result |= 1 << bit;
        }
    }
    result
}

fn password(password: &Password) -> Value {
    let mut result = Map::new();
    result.insert("site".into(), json!(password.id().site()));
    result.insert("name".into(), json!(password.id().name()));
    result.insert("rev".into(), json!(password.id().revision()));
    result.insert("notes".into(), json!(password.notes().expose_secret()));
    match password {
        Password::Generated(password) => {
            result.insert("type".into(), json!("gen"));
            result.insert("len".into(), json!(password.length()));
            result.insert("cs".into(), json!(mask(password.charset())));
            result.insert("value".into(), json!(""));
        }
        Password::Stored(password) => {
            result.insert("type".into(), json!("sto"));
            result.insert("len".into(), json!(0));
            result.insert("cs".into(), json!(0));
            result.insert("value".into(), json!(password.password().expose_secret()));
        }
    }
    Value::Object(result)
}

fn text<'a>(request: &'a Value, key: &str) -> &'a str {
    request[key].as_str().unwrap_or_default()
}

fn secret(request: &Value, key: &str) -> SecretString {
    SecretString::new(text(request, key).to_owned())
}

type Instances = HashMap<u64, Passwords<FileIO>>;

fn call(instances: &mut Instances, request: &Value) -> Value {
    let id = request["i"].as_u64().unwrap_or(0);
    let op = text(request, "op");
    match op {
        "load" => {
            instances.remove(&id);
            return match FileIO::load(Path::new(text(request, "path"))) {
                Ok(io) => {
                    instances.insert(id, Passwords::new(io));
                    json!({"ok": 0})
                }
                Err(error) => err(error),
            };
        }
        "new" => {
            let io = FileIO::new(Path::new(text(request, "path")));
            instances.insert(id, Passwords::new(io));
            return json!({"ok": 0});
        }
        "drop" => {
            instances.remove(&id);
            return json!({"ok": 0});
        }
        "format" => {
            return json!({"ok": pfp::recovery_codes::format_code(
                text(request, "code").as_bytes(),
                request["punct"].as_bool().unwrap_or(true),
            )});
        }
        "decode_pp" => {
            return done(
                pfp::recovery_codes::decode(text(request, "code"), &secret(request, "pp"))
                    .map(|value| json!(value.expose_secret())),
            );
        }
        _ => {}
    }

    let passwords = match instances.get_mut(&id) {
        Some(passwords) => passwords,
        None => return json!({"err": "NoInstance", "line": -1}),
    };
    let site = text(request, "site");
    let name = text(request, "name");
    let rev = text(request, "rev");
    match op {
        "initialized" => json!({"ok": passwords.initialized()}),
        "unlocked" => json!({"ok": passwords.unlocked()}),
        "reset" => done(passwords.reset(secret(request, "pp")).map(|_| json!(0))),
        "unlock" => done(passwords.unlock(secret(request, "pp")).map(|_| json!(0))),
        "lock" => {
            passwords.lock();
            json!({"ok": 0})
        }
        "getAlias" => done(passwords.get_alias(site).map(|value| json!(value))),
        "setAlias" => done(
            passwords
                .set_alias(site, text(request, "target"))
                .map(|_| json!(0)),
        ),
        "removeAlias" => done(passwords.remove_alias(site).map(|_| json!(0))),
        "removeSites" => {
            let sites = request["sites"]
                .as_array()
                .unwrap()
                .iter()
                .map(|site| site.as_str().unwrap().to_owned())
                .collect::<Vec<String>>();
            done(passwords.remove_sites(&sites).map(|_| json!(0)))
        }
        "setGenerated" => done(
            passwords
                .set_generated(
                    site,
                    name,
                    rev,
                    request["len"].as_u64().unwrap() as usize,
                    charset(request["cs"].as_u64().unwrap()),
                )
                .map(|_| json!(0)),
        ),
        "setStored" => done(
            passwords
                .set_stored(site, name, rev, secret(request, "value"))
                .map(|_| json!(0)),
        ),
        "has" => done(passwords.has(site, name, rev).map(|value| json!(value))),
        "get" => done(
            passwords
                .get(site, name, rev)
                .map(|value| json!(value.expose_secret())),
        ),
        "getNotes" => done(
            passwords
                .get_notes(site, name, rev)
                .map(|value| json!(value.expose_secret())),
        ),
        "setNotes" => done(
            passwords
                .set_notes(site, name, rev, secret(request, "notes"))
                .map(|_| json!(0)),
        ),
        "remove" => done(passwords.remove(site, name, rev).map(|_| json!(0))),
        "list" => {
            let list = passwords.list(site, name);
            json!({"ok": list.map(|entry| password(&entry)).collect::<Vec<Value>>()})
        }
        "listSites" => {
            let list = passwords.list_sites(site);
            json!({"ok": list.map(|site| json!({
                "site": site.name(),
                "alias": site.alias().iter().map(|alias| json!(alias)).collect::<Vec<Value>>(),
            })).collect::<Vec<Value>>()})
        }
        "recoveryCode" => {
            // for the first stored password with this exact identifier
            let list = passwords.list(site, "*").collect::<Vec<Password>>();
            for entry in &list {
                if let Password::Stored(stored) = entry {
                    if stored.id().name() == name && stored.id().revision() == rev {
                        return done(passwords.get_recovery_code(stored).map(|code| json!(code)));
                    }
                }
            }
            json!({"err": "NotFound", "line": -1})
        }
        "decode" => done(
            passwords
                .decode_recovery_code(text(request, "code"))
                .map(|value| json!(value.expose_secret())),
        ),
        other => json!({"err": format!("UnknownOp {}", other), "line": -1}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut instances = Instances::new();
    let stdin = std::io::stdin();
    let mut stdout = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            stdout.flush().unwrap();
            continue;
        }
        let request: Value = serde_json::from_str(&line).unwrap();
        let response = catch_unwind(AssertUnwindSafe(|| call(&mut instances, &request)))
            .unwrap_or_else(|panic| {
                let message = if let Some(text) = panic.downcast_ref::<&str>() {
                    text.to_string()
                } else if let Some(text) = panic.downcast_ref::<String>() {
                    text.clone()
                } else {
                    "panic".to_string()
                };
                json!({ "panic": message })
            });
        serde_json::to_writer(&mut stdout, &response).unwrap();
        stdout.write_all(b"\n").unwrap();
        if request["flush"].as_bool().unwrap_or(true) {
            stdout.flush().unwrap();
        }
    }
}
