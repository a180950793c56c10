use crate::run::Prop;
pub mod deep;
pub mod desc;
pub mod errors;
pub mod ext;
pub mod hostile;
pub mod json;
pub mod interop;
pub mod names;
pub mod options;
pub mod record;
pub mod text;
pub mod threads;
pub mod wirep;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(wirep::PROPS);
    v.extend(record::PROPS);
    v.extend(json::PROPS);
    v.extend(text::PROPS);
    v.extend(desc::PROPS);
    v.extend(options::PROPS);
    v.extend(errors::PROPS);
    v.extend(ext::PROPS);
    v.extend(hostile::PROPS);
    v.extend(names::PROPS);
    v.extend(deep::PROPS);
    v.extend(threads::PROPS);
    v.extend(interop::PROPS);
    v
}

/// A deterministic text of a dynamic message.
pub fn msg_canon(m: &prost_reflect::DynamicMessage) -> String {
    match crate::dynconv::from_dyn(m) {
        Ok(mut r) => {
            r.sort_unknown();
            format!("{r:?}")
        }
        Err(e) => format!("unreadable: {e}"),
    }
}

pub fn hexall(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Print helper for binary samples.
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{x:02x}")).collect();
    if b.len() > 200 {
        s.push('…');
    }
    s
}

/// Turn a file set into readable text for violation reports.
pub fn show_files(files: &[prost_types::FileDescriptorProto]) -> String {
    let mut out = String::new();
    for f in files {
        if f.name().starts_with("google/protobuf/") {
            continue;
        }
        let b = prost::Message::encode_to_vec(f);
        out.push_str(&format!("file {} hex={}\n", f.name(), b.iter().map(|x| format!("{x:02x}")).collect::<String>()));
    }
    out
}
