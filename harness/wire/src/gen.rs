fn dispatch(t: u64, q: &J, s: &mut St) -> J { json!({"st": "none"}) }
