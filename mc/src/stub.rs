//! Harness-side stand-ins for contracts the suite talks to but does not contain.
use crate::sim::{code, Entry, Res};
use cosmwasm_std::{from_json, Binary, Deps, DepsMut, Env, Response};
use serde_json::{json, Value};

fn jb(v: &Value) -> Binary {
    serde_json::to_vec(v).unwrap().into()
}

/// All stubs: instantiate stores the raw message under "init".
/// SINK: execute appends nothing but counts calls; `{"fail":{}}` fails.
pub fn dispatch(kind: u64, deps: DepsMut, _env: Env, e: Entry) -> Res<Response> {
    match (kind, e) {
        (code::ICS721_PROXY | code::CW3 | code::SINK | code::V1DAO, Entry::Inst(_, b)) => {
            deps.storage.set(b"init", b);
            Ok(Response::new())
        }
        (code::SINK, Entry::Exec(info, b)) => {
            let v: Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
            if v.get("fail").is_some() {
                return Err("sink asked to fail".into());
            }
            let mut n: Vec<Value> = deps
                .storage
                .get(b"log")
                .map(|b| serde_json::from_slice(&b).unwrap())
                .unwrap_or_default();
            let funds: Vec<String> = info.funds.iter().map(|c| c.to_string()).collect();
            n.push(json!([info.sender.as_str(), v, funds]));
            deps.storage.set(b"log", &serde_json::to_vec(&n).unwrap());
            Ok(Response::new())
        }
        (code::ICS721_PROXY, Entry::Exec(_, b)) => {
            // {"set":{"class":..., "addr":...}}: the class becomes known
            let v: Value = from_json::<Value>(b).map_err(|e| e.to_string())?;
            if let Some(s) = v.get("set") {
                deps.storage.set(
                    format!("c:{}", s["class"].as_str().unwrap()).as_bytes(),
                    s["addr"].as_str().unwrap().as_bytes(),
                );
                return Ok(Response::new());
            }
            Err("unknown".into())
        }
        _ => Err("no such entry point".into()),
    }
}

pub fn query(kind: u64, deps: Deps, _env: Env, b: &[u8]) -> Res<Binary> {
    let v: Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
    match kind {
        code::SINK => Ok(deps.storage.get(b"log").unwrap_or_else(|| b"[]".to_vec()).into()),
        code::ICS721_PROXY => {
            let c = v["nft_contract"]["class_id"].as_str().ok_or("bad query")?;
            let a = deps.storage.get(format!("c:{c}").as_bytes());
            Ok(match a {
                Some(a) => jb(&json!(String::from_utf8(a).unwrap())),
                None => jb(&Value::Null),
            })
        }
        code::CW3 => {
            // init: {"voters":[["addr",w],...]} sorted by address
            let lv = v.get("list_voters").ok_or("bad query")?;
            let init: Value = serde_json::from_slice(&deps.storage.get(b"init").unwrap()).unwrap();
            let after = lv["start_after"].as_str().unwrap_or("");
            let limit = lv["limit"].as_u64().unwrap_or(10).min(30) as usize;
            let voters: Vec<Value> = init["voters"]
                .as_array()
                .unwrap()
                .iter()
                .filter(|x| x[0].as_str().unwrap() > after)
                .take(limit)
                .map(|x| json!({"addr":x[0],"weight":x[1]}))
                .collect();
            Ok(jb(&json!({ "voters": voters })))
        }
        code::V1DAO => {
            let init: Value = serde_json::from_slice(&deps.storage.get(b"init").unwrap()).unwrap();
            let k = v.as_object().and_then(|o| o.keys().next().cloned()).ok_or("bad query")?;
            // parameters, where the scenario states them, must arrive unchanged
            if let Some(x) = init["expect"].get(&k) {
                if *x != v[&k] {
                    return Err(format!("unexpected parameters {v}"));
                }
            }
            init.get(&k).map(jb).ok_or_else(|| "unknown query".to_string())
        }
        _ => Err("no such code".into()),
    }
}
