//! The owner contract as a loadable library: it uses the controller crate with other features than the rest of the
//! simulated system, so it cannot be linked into the same program.
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{from_json, to_json_vec, ContractResult, MemoryStorage, Deps, DepsMut, Env, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper, Storage, SystemError, SystemResult};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Deserialize)]
struct In {
    entry: String,
    env: Value,
    sender: String,
    msg: Vec<u8>,
    store: Vec<(Vec<u8>, Vec<u8>)>,
    code: u64,
    checksum: String,
    creator: String,
}
#[derive(Serialize)]
struct Out {
    result: Result<Value, String>,
    store: Vec<(Vec<u8>, Vec<u8>)>,
}
struct Codes(u64, String, String);
impl Querier for Codes {
    fn raw_query(&self, r: &[u8]) -> QuerierResult {
        let v: Value = serde_json::from_slice(r).unwrap();
        match v["wasm"]["code_info"]["code_id"].as_u64() {
            Some(id) if id == self.0 => {
                SystemResult::Ok(ContractResult::Ok(json!({"code_id":id,"creator":self.2,"checksum":self.1}).to_string().into_bytes().into()))
            }
            Some(id) => SystemResult::Err(SystemError::NoSuchCode { code_id: id }),
            None => SystemResult::Err(SystemError::UnsupportedRequest { kind: v.to_string() }),
        }
    }
}

fn run(i: &In, st: &mut MemoryStorage) -> Result<Value, String> {
    let env: Env = from_json(i.env.to_string()).unwrap();
    let info: MessageInfo = from_json(json!({"sender":i.sender,"funds":[]}).to_string()).unwrap();
    let (api, q) = (MockApi::default(), Codes(i.code, i.checksum.clone(), i.creator.clone()));
    let t = |e: &dyn std::fmt::Display| e.to_string();
    let out = match i.entry.as_str() {
        "query" => {
            let deps = Deps { storage: st, api: &api, querier: QuerierWrapper::new(&q) };
            let m = from_json(&i.msg).map_err(|e| t(&e))?;
            cw_ica_owner::contract::query(deps, env, m).map_err(|e| t(&e))?.to_vec()
        }
        e => {
            let deps = DepsMut { storage: st, api: &api, querier: QuerierWrapper::new(&q) };
            let r = if e == "instantiate" {
                cw_ica_owner::contract::instantiate(deps, env, info, from_json(&i.msg).map_err(|e| t(&e))?).map_err(|e| t(&e))?
            } else {
                cw_ica_owner::contract::execute(deps, env, info, from_json(&i.msg).map_err(|e| t(&e))?).map_err(|e| t(&e))?
            };
            to_json_vec(&r).map_err(|e| t(&e))?
        }
    };
    serde_json::from_slice(&out).map_err(|e| t(&e))
}

/// # Safety
/// `p` points to `n` bytes; `sink` takes the answer
#[no_mangle]
pub unsafe extern "C" fn owner_call(p: *const u8, n: usize, sink: extern "C" fn(*mut u8, *const u8, usize), to: *mut u8) {
    let i: In = serde_json::from_slice(std::slice::from_raw_parts(p, n)).expect("call");
    let mut st = MemoryStorage::new();
    for (k, v) in &i.store {
        st.set(k, v);
    }
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&i, &mut st))).unwrap_or_else(|_| Err("panic".into()));
    let store = if result.is_ok() { st.range(None, None, Order::Ascending).collect() } else { i.store };
    let o = serde_json::to_vec(&Out { result, store }).unwrap();
    sink(to, o.as_ptr(), o.len());
}
