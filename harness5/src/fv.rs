//! The fields of a generated message, read from the struct itself.
use prost::bytes::Bytes;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Fv {
    Unset,
    Some(Box<Fv>),
    F64(f64),
    F32(f32),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Msg(Vec<(u32, Fv)>),
    List(Vec<Fv>),
    Map(Vec<(Fv, Fv)>),
}

pub trait ToFv {
    fn fv(&self) -> Fv;
}
pub trait OneFv {
    fn one(&self) -> (u32, Fv);
}

macro_rules! scalar {
    ($($t:ty => $v:ident),*) => { $(impl ToFv for $t { fn fv(&self) -> Fv { Fv::$v(self.clone().into()) } })* };
}
scalar!(f64 => F64, f32 => F32, i32 => I32, i64 => I64, u32 => U32, u64 => U64, bool => Bool, String => Str, Vec<u8> => Bytes, Bytes => Bytes);

impl<T: ToFv> ToFv for Option<T> {
    fn fv(&self) -> Fv {
        match self {
            None => Fv::Unset,
            Some(x) => Fv::Some(Box::new(x.fv())),
        }
    }
}
impl<T: ToFv> ToFv for Box<T> {
    fn fv(&self) -> Fv {
        (**self).fv()
    }
}
impl<T: ToFv> ToFv for Vec<T> {
    fn fv(&self) -> Fv {
        Fv::List(self.iter().map(|x| x.fv()).collect())
    }
}
impl<K: ToFv, V: ToFv> ToFv for HashMap<K, V> {
    fn fv(&self) -> Fv {
        Fv::Map(self.iter().map(|(k, v)| (k.fv(), v.fv())).collect())
    }
}
impl<K: ToFv, V: ToFv> ToFv for BTreeMap<K, V> {
    fn fv(&self) -> Fv {
        Fv::Map(self.iter().map(|(k, v)| (k.fv(), v.fv())).collect())
    }
}
impl ToFv for () {
    fn fv(&self) -> Fv {
        Fv::Msg(vec![])
    }
}

macro_rules! message {
    ($($t:ty { $($n:literal $f:ident),* })*) => { $(impl ToFv for $t { fn fv(&self) -> Fv { Fv::Msg(vec![$(($n, self.$f.fv())),*]) } })* };
}
use prost_types as p;
message! {
    p::Any { 1 type_url, 2 value }
    p::Timestamp { 1 seconds, 2 nanos }
    p::Duration { 1 seconds, 2 nanos }
    p::FieldMask { 1 paths }
    p::Struct { 1 fields }
    p::ListValue { 1 values }
    p::FieldOptions { 1 ctype, 2 packed, 6 jstype, 5 lazy, 3 deprecated, 10 weak, 999 uninterpreted_option }
    p::UninterpretedOption { 2 name, 3 identifier_value, 4 positive_int_value, 5 negative_int_value, 6 double_value, 7 string_value, 8 aggregate_value }
    p::uninterpreted_option::NamePart { 1 name_part, 2 is_extension }
    p::FileDescriptorSet { 1 file }
    p::FileDescriptorProto { 1 name, 2 package, 3 dependency, 10 public_dependency, 11 weak_dependency, 4 message_type, 5 enum_type, 6 service, 7 extension, 8 options, 9 source_code_info, 12 syntax }
    p::DescriptorProto { 1 name, 2 field, 6 extension, 3 nested_type, 4 enum_type, 5 extension_range, 8 oneof_decl, 7 options, 9 reserved_range, 10 reserved_name }
    p::descriptor_proto::ExtensionRange { 1 start, 2 end, 3 options }
    p::descriptor_proto::ReservedRange { 1 start, 2 end }
    p::ExtensionRangeOptions { 999 uninterpreted_option }
    p::FieldDescriptorProto { 1 name, 3 number, 4 label, 5 r#type, 6 type_name, 2 extendee, 7 default_value, 9 oneof_index, 10 json_name, 8 options, 17 proto3_optional }
    p::OneofDescriptorProto { 1 name, 2 options }
    p::EnumDescriptorProto { 1 name, 2 value, 3 options, 4 reserved_range, 5 reserved_name }
    p::enum_descriptor_proto::EnumReservedRange { 1 start, 2 end }
    p::EnumValueDescriptorProto { 1 name, 2 number, 3 options }
    p::ServiceDescriptorProto { 1 name, 2 method, 3 options }
    p::MethodDescriptorProto { 1 name, 2 input_type, 3 output_type, 4 options, 5 client_streaming, 6 server_streaming }
    p::FileOptions { 1 java_package, 8 java_outer_classname, 10 java_multiple_files, 20 java_generate_equals_and_hash, 27 java_string_check_utf8, 9 optimize_for, 11 go_package, 16 cc_generic_services, 17 java_generic_services, 18 py_generic_services, 42 php_generic_services, 23 deprecated, 31 cc_enable_arenas, 36 objc_class_prefix, 37 csharp_namespace, 39 swift_prefix, 40 php_class_prefix, 41 php_namespace, 44 php_metadata_namespace, 45 ruby_package, 999 uninterpreted_option }
    p::MessageOptions { 1 message_set_wire_format, 2 no_standard_descriptor_accessor, 3 deprecated, 7 map_entry, 999 uninterpreted_option }
    p::OneofOptions { 999 uninterpreted_option }
    p::EnumOptions { 2 allow_alias, 3 deprecated, 999 uninterpreted_option }
    p::EnumValueOptions { 1 deprecated, 999 uninterpreted_option }
    p::ServiceOptions { 33 deprecated, 999 uninterpreted_option }
    p::MethodOptions { 33 deprecated, 34 idempotency_level, 999 uninterpreted_option }
    p::SourceCodeInfo { 1 location }
    p::source_code_info::Location { 1 path, 2 span, 3 leading_comments, 4 trailing_comments, 6 leading_detached_comments }
    p::GeneratedCodeInfo { 1 annotation }
    p::generated_code_info::Annotation { 1 path, 2 source_file, 3 begin, 4 end }
    p::compiler::Version { 1 major, 2 minor, 3 patch, 4 suffix }
    p::compiler::CodeGeneratorRequest { 1 file_to_generate, 2 parameter, 15 proto_file, 3 compiler_version }
    p::compiler::CodeGeneratorResponse { 1 error, 2 supported_features, 15 file }
    p::compiler::code_generator_response::File { 1 name, 2 insertion_point, 15 content, 16 generated_code_info }
    p::SourceContext { 1 file_name }
    p::Type { 1 name, 2 fields, 3 oneofs, 4 options, 5 source_context, 6 syntax }
    p::Field { 1 kind, 2 cardinality, 3 number, 4 name, 6 type_url, 7 oneof_index, 8 packed, 9 options, 10 json_name, 11 default_value }
    p::Enum { 1 name, 2 enumvalue, 3 options, 4 source_context, 5 syntax }
    p::EnumValue { 1 name, 2 number, 3 options }
    p::Option { 1 name, 2 value }
    p::Api { 1 name, 2 methods, 3 options, 4 version, 5 source_context, 6 mixins, 7 syntax }
    p::Method { 1 name, 2 request_type_url, 3 request_streaming, 4 response_type_url, 5 response_streaming, 6 options, 7 syntax }
    p::Mixin { 1 name, 2 root }
}
impl ToFv for p::Value {
    fn fv(&self) -> Fv {
        use p::value::Kind::*;
        let x = match &self.kind {
            None => return Fv::Msg(vec![]),
            Some(NullValue(x)) => (1, x.fv()),
            Some(NumberValue(x)) => (2, x.fv()),
            Some(StringValue(x)) => (3, x.fv()),
            Some(BoolValue(x)) => (4, x.fv()),
            Some(StructValue(x)) => (5, x.fv()),
            Some(ListValue(x)) => (6, x.fv()),
        };
        Fv::Msg(vec![(x.0, Fv::Some(Box::new(x.1)))])
    }
}
