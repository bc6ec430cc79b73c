// Takes common/protos/src/lib.rs without the gRPC items, and the two prost helpers of models_helper.rs.
use quote::ToTokens;
fn items(p: &str) -> Vec<syn::Item> {
    println!("cargo:rerun-if-changed={p}");
    syn::parse_file(&std::fs::read_to_string(p).unwrap()).unwrap().items
}
fn main() {
    let foreign = ["tonic", "tower", "TskvServiceClient", "RaftServiceClient", "kv_service", "raft_service", "Channel"];
    let mut out = String::new();
    for i in items("/repo/common/protos/src/lib.rs") {
        let s = i.to_token_stream().to_string();
        let keep = match &i {
            syn::Item::Mod(_) => false,
            syn::Item::Use(_) => !s.contains("generated"),
            _ => true,
        };
        if keep && !s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| foreign.contains(&w)) {
            out += &s;
            out.push('\n');
        }
    }
    let mut h = String::new();
    for i in items("/repo/common/protos/src/models_helper.rs") {
        if let syn::Item::Fn(f) = &i {
            if f.sig.ident.to_string().contains("prost_bytes") {
                h += &i.to_token_stream().to_string();
            }
        }
    }
    let mut k = String::new();
    for i in items("/repo/common/protos/src/generated/protobuf_generated/kv_service.rs") {
        if matches!(&i, syn::Item::Mod(m) if m.ident.to_string().starts_with("tskv_service")) {
            continue;
        }
        k += &i.to_token_stream().to_string();
        k.push('\n');
    }
    let d = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{d}/lib_items.rs"), out).unwrap();
    std::fs::write(format!("{d}/kv_items.rs"), k).unwrap();
    std::fs::write(format!("{d}/helper_items.rs"), h).unwrap();
}
