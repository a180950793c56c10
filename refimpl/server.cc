// The protobuf C++ implementation behind a pipe, for the differential checks of C30.
// Request: op byte, u32 flags, u32 count, then count times (u32 length, bytes). Response: status byte, u32 length, bytes.
#include <google/protobuf/any.pb.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/tokenizer.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/text_format.h>
#include <google/protobuf/util/json_util.h>
#include <google/protobuf/util/message_differencer.h>
#include <google/protobuf/util/type_resolver_util.h>

#include <cstdio>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace pb = google::protobuf;
using std::string;

static bool rd(void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    ssize_t k = ::read(0, c, n);
    if (k <= 0) return false;
    c += k;
    n -= k;
  }
  return true;
}
static void wr(const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    ssize_t k = ::write(1, c, n);
    if (k <= 0) _exit(3);
    c += k;
    n -= k;
  }
}

struct Errs : pb::DescriptorPool::ErrorCollector {
  string out;
  void AddError(const string& file, const string& el, const pb::Message*, ErrorLocation, const string& msg) override {
    out += file + ": " + el + ": " + msg + "\n";
  }
};
struct TextErrs : pb::io::ErrorCollector {
  string out;
  void AddError(int line, int col, const string& msg) override {
    out += std::to_string(line) + ":" + std::to_string(col) + ": " + msg + "\n";
  }
};

struct World {
  std::unique_ptr<pb::DescriptorPool> pool;
  std::unique_ptr<pb::DynamicMessageFactory> factory;
  std::unique_ptr<pb::util::TypeResolver> resolver;
  std::vector<const pb::FileDescriptor*> files;
};
static World w;

static string hex(const string& s) {
  static const char* d = "0123456789abcdef";
  string o;
  for (unsigned char c : s) {
    o += d[c >> 4];
    o += d[c & 15];
  }
  return o;
}

static void field(std::ostringstream& o, const pb::FieldDescriptor* f) {
  using F = pb::FieldDescriptor;
  o << (f->is_extension() ? "X" : "F") << '\t' << f->full_name() << '\t' << f->number() << '\t'
    << (f->is_extension() ? "[" + f->full_name() + "]" : f->json_name()) << '\t' << (int)f->type() << '\t'
    << (int)f->label() << '\t' << f->is_packed() << '\t' << f->has_presence() << '\t' << f->is_map() << '\t'
    << (f->containing_oneof() ? f->containing_oneof()->full_name() : "-") << '\t'
    << (f->real_containing_oneof() ? 1 : 0) << '\t' << f->containing_type()->full_name() << '\t'
    << (f->is_extension() ? (f->extension_scope() ? f->extension_scope()->full_name() : "-") : "-") << '\t'
    << (f->message_type() ? f->message_type()->full_name() : f->enum_type() ? f->enum_type()->full_name() : "-") << '\t';
  if (f->is_repeated() || f->cpp_type() == F::CPPTYPE_MESSAGE) {
    o << "-";
  } else {
    char b[64];
    switch (f->cpp_type()) {
      case F::CPPTYPE_INT32: o << f->default_value_int32(); break;
      case F::CPPTYPE_INT64: o << f->default_value_int64(); break;
      case F::CPPTYPE_UINT32: o << f->default_value_uint32(); break;
      case F::CPPTYPE_UINT64: o << f->default_value_uint64(); break;
      case F::CPPTYPE_DOUBLE: {
        double d = f->default_value_double();
        uint64_t u;
        memcpy(&u, &d, 8);
        if (d != d) snprintf(b, 64, "nan"); else snprintf(b, 64, "%016lx", (unsigned long)u);
        o << b;
        break;
      }
      case F::CPPTYPE_FLOAT: {
        float d = f->default_value_float();
        uint32_t u;
        memcpy(&u, &d, 4);
        if (d != d) snprintf(b, 64, "nan"); else snprintf(b, 64, "%08x", u);
        o << b;
        break;
      }
      case F::CPPTYPE_BOOL: o << f->default_value_bool(); break;
      case F::CPPTYPE_ENUM: o << f->default_value_enum()->number(); break;
      case F::CPPTYPE_STRING: o << "x" << hex(f->default_value_string()); break;
      default: break;
    }
  }
  o << '\n';
}

static void enum_(std::ostringstream& o, const pb::EnumDescriptor* e) {
  o << "E\t" << e->full_name() << '\t' << (e->containing_type() ? e->containing_type()->full_name() : "-") << '\t' << e->name() << '\n';
  for (int i = 0; i < e->value_count(); i++)
    o << "V\t" << e->value(i)->full_name() << '\t' << e->value(i)->number() << '\t' << e->full_name() << '\n';
  for (int i = 0; i < e->reserved_range_count(); i++)
    o << "r\t" << e->full_name() << '\t' << e->reserved_range(i)->start << '\t' << e->reserved_range(i)->end << '\n';
}

static void message(std::ostringstream& o, const pb::Descriptor* m) {
  o << "M\t" << m->full_name() << '\t' << m->name() << '\t' << (m->containing_type() ? m->containing_type()->full_name() : "-") << '\t'
    << m->options().map_entry() << '\n';
  for (int i = 0; i < m->field_count(); i++) field(o, m->field(i));
  for (int i = 0; i < m->extension_count(); i++) field(o, m->extension(i));
  for (int i = 0; i < m->oneof_decl_count(); i++) {
    o << "O\t" << m->oneof_decl(i)->full_name() << '\t' << m->oneof_decl(i)->is_synthetic();
    for (int k = 0; k < m->oneof_decl(i)->field_count(); k++) o << '\t' << m->oneof_decl(i)->field(k)->number();
    o << '\n';
  }
  for (int i = 0; i < m->extension_range_count(); i++)
    o << "R\t" << m->full_name() << '\t' << m->extension_range(i)->start << '\t' << m->extension_range(i)->end << '\n';
  for (int i = 0; i < m->reserved_range_count(); i++)
    o << "r\t" << m->full_name() << '\t' << m->reserved_range(i)->start << '\t' << m->reserved_range(i)->end << '\n';
  std::vector<const pb::FieldDescriptor*> ex;
  m->file()->pool()->FindAllExtensions(m, &ex);
  for (auto* e : ex) o << "L\t" << m->full_name() << '\t' << e->number() << '\t' << e->full_name() << '\n';
  for (int i = 0; i < m->nested_type_count(); i++) message(o, m->nested_type(i));
  for (int i = 0; i < m->enum_type_count(); i++) enum_(o, m->enum_type(i));
}

static string attributes() {
  std::ostringstream o;
  for (auto* f : w.files) {
    o << "P\t" << f->name() << '\t' << f->package() << '\t' << (f->syntax() == pb::FileDescriptor::SYNTAX_PROTO3);
    for (int i = 0; i < f->dependency_count(); i++) o << '\t' << f->dependency(i)->name();
    o << "\t|";
    for (int i = 0; i < f->public_dependency_count(); i++) o << '\t' << f->public_dependency(i)->name();
    o << '\n';
    for (int i = 0; i < f->message_type_count(); i++) message(o, f->message_type(i));
    for (int i = 0; i < f->enum_type_count(); i++) enum_(o, f->enum_type(i));
    for (int i = 0; i < f->extension_count(); i++) field(o, f->extension(i));
    for (int i = 0; i < f->service_count(); i++) {
      auto* s = f->service(i);
      o << "S\t" << s->full_name() << '\n';
      for (int k = 0; k < s->method_count(); k++) {
        auto* m = s->method(k);
        o << "D\t" << m->full_name() << '\t' << m->input_type()->full_name() << '\t' << m->output_type()->full_name() << '\t'
          << m->client_streaming() << '\t' << m->server_streaming() << '\n';
      }
    }
  }
  return o.str();
}

// the options of every element: kind, name, hex of the encoded options
template <class D>
static void opt(std::ostringstream& o, const char* k, const string& name, const D* d) {
  o << k << '\t' << name << '\t' << hex(d->options().SerializeAsString()) << '\n';
}
static void enum_options(std::ostringstream& o, const pb::EnumDescriptor* e) {
  opt(o, "enum", e->full_name(), e);
  for (int i = 0; i < e->value_count(); i++) opt(o, "value", e->full_name() + "." + e->value(i)->name(), e->value(i));
}
static void message_options(std::ostringstream& o, const pb::Descriptor* m) {
  opt(o, "message", m->full_name(), m);
  for (int i = 0; i < m->field_count(); i++) opt(o, "field", m->field(i)->full_name(), m->field(i));
  for (int i = 0; i < m->extension_count(); i++) opt(o, "extension", m->extension(i)->full_name(), m->extension(i));
  for (int i = 0; i < m->oneof_decl_count(); i++) opt(o, "oneof", m->oneof_decl(i)->full_name(), m->oneof_decl(i));
  for (int i = 0; i < m->nested_type_count(); i++) message_options(o, m->nested_type(i));
  for (int i = 0; i < m->enum_type_count(); i++) enum_options(o, m->enum_type(i));
}
static string options() {
  std::ostringstream o;
  for (auto* f : w.files) {
    opt(o, "file", f->name(), f);
    for (int i = 0; i < f->message_type_count(); i++) message_options(o, f->message_type(i));
    for (int i = 0; i < f->enum_type_count(); i++) enum_options(o, f->enum_type(i));
    for (int i = 0; i < f->extension_count(); i++) opt(o, "extension", f->extension(i)->full_name(), f->extension(i));
    for (int i = 0; i < f->service_count(); i++) {
      opt(o, "service", f->service(i)->full_name(), f->service(i));
      for (int k = 0; k < f->service(i)->method_count(); k++) opt(o, "method", f->service(i)->method(k)->full_name(), f->service(i)->method(k));
    }
  }
  return o.str();
}

static int schema(const string& in, string* out) {
  pb::FileDescriptorSet set;
  if (!set.ParseFromString(in)) {
    *out = "set does not parse";
    return 1;
  }
  World n;
  n.pool.reset(new pb::DescriptorPool());
  Errs errs;
  for (auto& f : set.file()) {
    auto* d = n.pool->BuildFileCollectingErrors(f, &errs);
    if (!d) {
      *out = errs.out;
      return 1;
    }
    n.files.push_back(d);
  }
  n.factory.reset(new pb::DynamicMessageFactory(n.pool.get()));
  n.resolver.reset(pb::util::NewTypeResolverForDescriptorPool("type.googleapis.com", n.pool.get()));
  w.resolver.reset();
  w.factory.reset();
  w.files.clear();
  w.pool.reset();
  w = std::move(n);
  return 0;
}

// flags: bits 0-1 input format, 2-3 output format (0 binary, 1 JSON, 2 text), the rest options
static int convert(uint32_t fl, const string& type, const string& in, string* out) {
  int inf = fl & 3, outf = (fl >> 2) & 3;
  uint32_t opt = fl >> 4;
  const pb::Descriptor* d = w.pool->FindMessageTypeByName(type);
  if (!d) {
    *out = "no such type";
    return 2;
  }
  string url = "type.googleapis.com/" + type;
  string bin;
  std::unique_ptr<pb::Message> m(w.factory->GetPrototype(d)->New());
  if (inf == 0) {
    if (!m->ParsePartialFromString(in)) {
      *out = "binary does not parse";
      return 1;
    }
  } else if (inf == 1) {
    pb::util::JsonParseOptions o;
    o.ignore_unknown_fields = opt & 256;
    auto st = pb::util::JsonToBinaryString(w.resolver.get(), url, in, &bin, o);
    if (!st.ok()) {
      *out = st.ToString();
      return 1;
    }
    if (!m->ParsePartialFromString(bin)) {
      *out = "binary made from JSON does not parse";
      return 1;
    }
  } else {
    pb::TextFormat::Parser p;
    TextErrs e;
    p.AllowPartialMessage(true);
    p.RecordErrorsTo(&e);
    if (!p.ParseFromString(in, m.get())) {
      *out = e.out;
      return 1;
    }
  }
  if (outf == 0) {
    *out = m->SerializePartialAsString();
  } else if (outf == 1) {
    bin = m->SerializePartialAsString();
    pb::util::JsonPrintOptions o;
    o.add_whitespace = opt & 1;
    o.always_print_primitive_fields = opt & 2;
    o.always_print_enums_as_ints = opt & 4;
    o.preserve_proto_field_names = opt & 8;
    auto st = pb::util::BinaryToJsonString(w.resolver.get(), url, bin, out, o);
    if (!st.ok()) {
      *out = st.ToString();
      return 1;
    }
  } else {
    pb::TextFormat::Printer p;
    p.SetSingleLineMode(opt & 1);
    p.SetUseShortRepeatedPrimitives(opt & 2);
    p.SetExpandAny(opt & 4);
    p.SetPrintMessageFieldsInIndexOrder(opt & 8);
    p.SetUseUtf8StringEscaping(opt & 16);
    p.SetUseFieldNumber(false);
    p.SetHideUnknownFields(true);
    if (!p.PrintToString(*m, out)) {
      *out = "not printed";
      return 1;
    }
  }
  return 0;
}

int main() {
  pb::SetLogHandler(nullptr);
  for (;;) {
    char op;
    uint32_t fl, n;
    if (!rd(&op, 1) || !rd(&fl, 4) || !rd(&n, 4)) return 0;
    std::vector<string> a(n);
    for (auto& s : a) {
      uint32_t l;
      if (!rd(&l, 4)) return 1;
      s.resize(l);
      if (l && !rd(&s[0], l)) return 1;
    }
    string out;
    int st = 9;
    try {
      if (op == 'S') st = schema(a.at(0), &out);
      else if (op == 'A') { out = attributes(); st = 0; }
      else if (op == 'O') { out = options(); st = 0; }
      else if (op == 'C') st = convert(fl, a.at(0), a.at(1), &out);
    } catch (const std::exception& e) {
      // a CHECK of the reference failed
      out = e.what();
      st = 4;
    }
    char sb = st;
    uint32_t l = out.size();
    wr(&sb, 1);
    wr(&l, 4);
    wr(out.data(), l);
  }
}
