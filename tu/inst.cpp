// Instantiates the templates of eProsima/xtypes that a user can reach, so that clang type-checks and exposes their bodies.
// Nothing here is ever executed: the file is only parsed (-fsyntax-only) by /verif/build/xport.
#include <xtypes/xtypes.hpp>
#include <xtypes/StringConversion.hpp>
#include <xtypes/idl/Module.hpp>
#include <xtypes/idl/generator.hpp>

using namespace eprosima::xtypes;

namespace verif_inst {

template<typename T> void prim(DynamicData& d, WritableDynamicDataRef w, ReadableDynamicDataRef r)
{
    (void) primitive_type<T>();
    const T v{};
    (void) r.value<T>(); T c = r; (void) c; (void) r.cast<T>(); (void) r.as_vector<T>();
    w.value<T>(v); w.push<T>(v); w = v; (void) w.value<T>();
    d = v;
}
template<typename T> void str(DynamicData& d, WritableDynamicDataRef w, ReadableDynamicDataRef r)
{
    const T v{};
    (void) r.value<T>(); T c = r; (void) c; (void) r.as_vector<T>();
    w.value<T>(v); w.push<T>(v); w = v; d = v;
}
template<typename T> void arith(DynamicData& d)
{
    const T v{};
    d *= v; d /= v; d += v; d -= v;
}
template<typename T> void plain(DynamicData& d)
{
    const T v{};
    d *= v; d /= v; d += v; d -= v; d %= v; d <<= v; d >>= v; d &= v; d ^= v; d |= v;
}
template<typename T> void integral(DynamicData& d, WritableDynamicDataRef w, ReadableDynamicDataRef r)
{
    const T v{};
    d %= v; d <<= v; d >>= v; d &= v; d ^= v; d |= v;
    (void) w[v]; (void) r[v];
}
template<typename T> void enums(Member& m)
{
    EnumerationType<T> e("e");
    e.add_enumerator("a", T()); e.add_enumerator("b"); (void) e.default_value(); (void) e.enumerators(); (void) e.has_enumerator("a");
    (void) e.value("a"); (void) e.is_allowed_value(T()); (void) e.enumerator(T());
    Member m2("x", EnumerationType<T>("t")); (void) m;
}
template<typename T> void labels(UnionType& u, const Member& m, const DynamicType& t)
{
    u.add_case_member(std::vector<T>{}, m); u.add_case_member(std::vector<T>{}, "n", t); u.add_case_member(std::vector<T>{}, "n", StructType("x"));
}
template<typename T> void temporaries(StructType& s, const T& t)
{
    s.add_member("n", T(t)); SequenceType q(T(t), 2); ArrayType a(T(t), 2u); MapType m(T(t), T(t), 2u);
}
void all()
{
    StructType st("s"); UnionType un("u", primitive_type<int32_t>()); AliasType al(DynamicType::Ptr(st), "al");
    DynamicData d(st); WritableDynamicDataRef w = d.ref(); ReadableDynamicDataRef r = d;
    prim<bool>(d, w, r); prim<char>(d, w, r); prim<int8_t>(d, w, r); prim<uint8_t>(d, w, r); prim<int16_t>(d, w, r); prim<uint16_t>(d, w, r);
    prim<int32_t>(d, w, r); prim<uint32_t>(d, w, r); prim<int64_t>(d, w, r); prim<uint64_t>(d, w, r); prim<float>(d, w, r); prim<double>(d, w, r);
    prim<long double>(d, w, r); prim<char16_t>(d, w, r); prim<wchar_t>(d, w, r);
    str<std::string>(d, w, r); str<std::wstring>(d, w, r); str<std::u16string>(d, w, r);
    plain<bool>(d); plain<char>(d); plain<wchar_t>(d); plain<char16_t>(d);
    (void) r.cast<std::string>();
    arith<int8_t>(d); arith<uint8_t>(d); arith<int16_t>(d); arith<uint16_t>(d); arith<int32_t>(d); arith<uint32_t>(d); arith<int64_t>(d); arith<uint64_t>(d);
    arith<float>(d); arith<double>(d); arith<long double>(d);
    integral<int8_t>(d, w, r); integral<uint8_t>(d, w, r); integral<int16_t>(d, w, r); integral<uint16_t>(d, w, r); integral<int32_t>(d, w, r);
    integral<uint32_t>(d, w, r); integral<int64_t>(d, w, r); integral<uint64_t>(d, w, r);
    Member m("m", st);
    enums<uint8_t>(m); enums<uint16_t>(m); enums<uint32_t>(m);
    labels<bool>(un, m, st); labels<char>(un, m, st); labels<int8_t>(un, m, st); labels<uint8_t>(un, m, st); labels<int16_t>(un, m, st); labels<uint16_t>(un, m, st);
    labels<int32_t>(un, m, st); labels<uint32_t>(un, m, st); labels<int64_t>(un, m, st); labels<uint64_t>(un, m, st); labels<char16_t>(un, m, st); labels<wchar_t>(un, m, st);
    temporaries<StructType>(st, st); temporaries<UnionType>(st, un); temporaries<AliasType>(st, al); temporaries<StringType>(st, StringType());
    temporaries<WStringType>(st, WStringType()); temporaries<String16Type>(st, String16Type());
    temporaries<SequenceType>(st, SequenceType(st)); temporaries<ArrayType>(st, ArrayType(st, 2u)); temporaries<MapType>(st, MapType(st, st)); st.add_member("n", PairType(st, st));
    (void) static_cast<const StructType&>(al);
    (void) eprosima::code_conversion_tool<char16_t>(std::basic_string<XTYPES_CHAR>());
    (void) eprosima::code_conversion_tool<XTYPES_CHAR>(std::u16string());
    DynamicData d2(d); d2 = d; d2 = r; DynamicData d3(std::move(d2)); DynamicData d4(r); DynamicData d5(r, st);
    (void) (d + r); (void) d.ref().insert(r); (void) w[r]; w.d(r); w.d(1); (void) r.d(); (void) r.current_case(); (void) (r == r); (void) (r != r);
    for (auto&& x : w) { (void) x; } for (auto&& x : r) { (void) x; } for (auto&& x : w.items()) { (void) x; } for (auto&& x : r.items()) { (void) x; }
    std::ostringstream os; os << d;
    eprosima::xtypes::idl::Module mod; (void) mod;
}
} // namespace verif_inst
