// Facts about the types of the public interface, decided by the compiler: every line that fails names its property.
// Never run, never even code-generated.
#include <xtypes/xtypes.hpp>
#include <xtypes/idl/Module.hpp>
#include <type_traits>
using namespace eprosima::xtypes;
template<typename T> using V = decltype(std::declval<T>());
using R = const ReadableDynamicDataRef&;
using W = WritableDynamicDataRef&;
using CD = const DynamicData&;
#define FACT(TEXT, ...) static_assert((__VA_ARGS__), TEXT)
#define ABSENT(NAME, CALL) template<typename T, typename = void> struct has_##NAME : std::false_type {}; \
    template<typename T> struct has_##NAME<T, std::void_t<decltype(std::declval<T>().CALL)>> : std::true_type {}
template<typename T> constexpr bool readable = std::is_base_of<ReadableDynamicDataRef, std::decay_t<T>>::value && !std::is_base_of<WritableDynamicDataRef, std::decay_t<T>>::value;
template<typename T> constexpr bool fixed = !std::is_reference<T>::value || std::is_const<std::remove_reference_t<T>>::value;
ABSENT(push, push(std::declval<R>()));
ABSENT(pushv, template push<uint32_t>(uint32_t()));
ABSENT(resize, resize(size_t()));
ABSENT(insert, insert(std::declval<R>()));
ABSENT(setv, template value<uint32_t>(uint32_t()));
ABSENT(setd, d(size_t()));
ABSENT(ref, ref());

// --- P10
FACT("P10: a readable reference does not become a writable one", !std::is_convertible<R, WritableDynamicDataRef>::value && !std::is_constructible<WritableDynamicDataRef, R>::value);
FACT("P10: element access of a readable reference is readable", readable<decltype(std::declval<R>()[size_t(0)])>);
FACT("P10: member access of a readable reference is readable", readable<decltype(std::declval<R>()[std::string()])>);
FACT("P10: member access by literal of a readable reference is readable", readable<decltype(std::declval<R>()["m"])>);
FACT("P10: the discriminator of a readable reference is readable", readable<decltype(std::declval<R>().d())>);
FACT("P10: iterating a readable reference is readable", readable<decltype(*std::declval<R>().begin())>);
FACT("P10: iterating the members of a readable reference is readable", readable<decltype((*std::declval<R>().items().begin()).data())>);
FACT("P10: the nodes visited from a readable reference are readable", readable<decltype(std::declval<const ReadableDynamicDataRef::ReadableNode&>().data())>);
FACT("P10: the type of a value cannot be changed through it", fixed<decltype(std::declval<R>().type())>);
FACT("P10: the content of a value cannot be changed through what is read", fixed<decltype(std::declval<R>().value<std::string>())> && fixed<decltype(std::declval<R>().value<uint32_t>())>);
FACT("P10: a readable reference offers no push", !has_push<R>::value && !has_pushv<R>::value);
FACT("P10: a readable reference offers no resize", !has_resize<R>::value);
FACT("P10: a readable reference offers no insert", !has_insert<R>::value);
FACT("P10: a readable reference offers no write", !has_setv<R>::value && !std::is_assignable<R, uint32_t>::value && !std::is_assignable<R, std::string>::value);
FACT("P10: a readable reference offers no change of discriminator", !has_setd<R>::value);
FACT("P10: a readable reference offers no writable reference", !has_ref<R>::value);
FACT("P10: a constant value is not assignable", !std::is_assignable<CD, CD>::value && !std::is_assignable<CD, uint32_t>::value);
FACT("P10: parts of a constant value are readable", readable<decltype(std::declval<CD>()[size_t(0)])> && readable<decltype(std::declval<CD>()[std::string()])>);
FACT("P10: a readable reference taken from a writable one is readable", readable<decltype(std::declval<W>().cref())>);
FACT("P10: members cannot be changed through the type", fixed<decltype(std::declval<const StructType&>().member(std::string()))> && fixed<decltype(std::declval<const StructType&>().members())> && fixed<decltype(std::declval<const Member&>().type())>);
FACT("P10: declarations cannot be changed through a constant module", fixed<decltype(std::declval<const idl::Module&>().structure(std::string()))> && fixed<decltype(std::declval<const idl::Module&>().union_switch(std::string()))>);

// --- P11
FACT("P11: the kind of bool", PrimitiveTypeKindTrait<bool>::kind == TypeKind::BOOLEAN_TYPE);
FACT("P11: the description of bool is shared read-only", std::is_same<decltype(primitive_type<bool>()), const DynamicType&>::value);
FACT("P11: the kind of int8_t", PrimitiveTypeKindTrait<int8_t>::kind == TypeKind::INT_8_TYPE);
FACT("P11: the description of int8_t is shared read-only", std::is_same<decltype(primitive_type<int8_t>()), const DynamicType&>::value);
FACT("P11: the kind of uint8_t", PrimitiveTypeKindTrait<uint8_t>::kind == TypeKind::UINT_8_TYPE);
FACT("P11: the description of uint8_t is shared read-only", std::is_same<decltype(primitive_type<uint8_t>()), const DynamicType&>::value);
FACT("P11: the kind of int16_t", PrimitiveTypeKindTrait<int16_t>::kind == TypeKind::INT_16_TYPE);
FACT("P11: the description of int16_t is shared read-only", std::is_same<decltype(primitive_type<int16_t>()), const DynamicType&>::value);
FACT("P11: the kind of uint16_t", PrimitiveTypeKindTrait<uint16_t>::kind == TypeKind::UINT_16_TYPE);
FACT("P11: the description of uint16_t is shared read-only", std::is_same<decltype(primitive_type<uint16_t>()), const DynamicType&>::value);
FACT("P11: the kind of int32_t", PrimitiveTypeKindTrait<int32_t>::kind == TypeKind::INT_32_TYPE);
FACT("P11: the description of int32_t is shared read-only", std::is_same<decltype(primitive_type<int32_t>()), const DynamicType&>::value);
FACT("P11: the kind of uint32_t", PrimitiveTypeKindTrait<uint32_t>::kind == TypeKind::UINT_32_TYPE);
FACT("P11: the description of uint32_t is shared read-only", std::is_same<decltype(primitive_type<uint32_t>()), const DynamicType&>::value);
FACT("P11: the kind of int64_t", PrimitiveTypeKindTrait<int64_t>::kind == TypeKind::INT_64_TYPE);
FACT("P11: the description of int64_t is shared read-only", std::is_same<decltype(primitive_type<int64_t>()), const DynamicType&>::value);
FACT("P11: the kind of uint64_t", PrimitiveTypeKindTrait<uint64_t>::kind == TypeKind::UINT_64_TYPE);
FACT("P11: the description of uint64_t is shared read-only", std::is_same<decltype(primitive_type<uint64_t>()), const DynamicType&>::value);
FACT("P11: the kind of float", PrimitiveTypeKindTrait<float>::kind == TypeKind::FLOAT_32_TYPE);
FACT("P11: the description of float is shared read-only", std::is_same<decltype(primitive_type<float>()), const DynamicType&>::value);
FACT("P11: the kind of double", PrimitiveTypeKindTrait<double>::kind == TypeKind::FLOAT_64_TYPE);
FACT("P11: the description of double is shared read-only", std::is_same<decltype(primitive_type<double>()), const DynamicType&>::value);
FACT("P11: the kind of long double", PrimitiveTypeKindTrait<long double>::kind == TypeKind::FLOAT_128_TYPE);
FACT("P11: the description of long double is shared read-only", std::is_same<decltype(primitive_type<long double>()), const DynamicType&>::value);
FACT("P11: the kind of char", PrimitiveTypeKindTrait<char>::kind == TypeKind::CHAR_8_TYPE);
FACT("P11: the description of char is shared read-only", std::is_same<decltype(primitive_type<char>()), const DynamicType&>::value);
FACT("P11: the kind of char16_t", PrimitiveTypeKindTrait<char16_t>::kind == TypeKind::CHAR_16_TYPE);
FACT("P11: the description of char16_t is shared read-only", std::is_same<decltype(primitive_type<char16_t>()), const DynamicType&>::value);
FACT("P11: the kind of wchar_t", PrimitiveTypeKindTrait<wchar_t>::kind == TypeKind::WIDE_CHAR_TYPE);
FACT("P11: the description of wchar_t is shared read-only", std::is_same<decltype(primitive_type<wchar_t>()), const DynamicType&>::value);

// --- P26
FACT("P26: a ArrayType is a collection", std::is_base_of<CollectionType, ArrayType>::value);
FACT("P26: a SequenceType is a collection", std::is_base_of<CollectionType, SequenceType>::value);
FACT("P26: a MapType is a collection", std::is_base_of<CollectionType, MapType>::value);
FACT("P26: a StringType is a collection", std::is_base_of<CollectionType, StringType>::value);
FACT("P26: a WStringType is a collection", std::is_base_of<CollectionType, WStringType>::value);
FACT("P26: a String16Type is a collection", std::is_base_of<CollectionType, String16Type>::value);
FACT("P26: a SequenceType has a bound", std::is_base_of<MutableCollectionType, SequenceType>::value);
FACT("P26: a MapType has a bound", std::is_base_of<MutableCollectionType, MapType>::value);
FACT("P26: a StringType has a bound", std::is_base_of<MutableCollectionType, StringType>::value);
FACT("P26: a WStringType has a bound", std::is_base_of<MutableCollectionType, WStringType>::value);
FACT("P26: a String16Type has a bound", std::is_base_of<MutableCollectionType, String16Type>::value);
FACT("P26: a StructType is an aggregation", std::is_base_of<AggregationType, StructType>::value && !std::is_base_of<CollectionType, StructType>::value);
FACT("P26: a UnionType is an aggregation", std::is_base_of<AggregationType, UnionType>::value && !std::is_base_of<CollectionType, UnionType>::value);
FACT("P26: a PairType is neither collection nor aggregation", !std::is_base_of<AggregationType, PairType>::value && !std::is_base_of<CollectionType, PairType>::value);
FACT("P26: a AliasType is neither collection nor aggregation", !std::is_base_of<AggregationType, AliasType>::value && !std::is_base_of<CollectionType, AliasType>::value);
FACT("P26: a EnumerationType<uint32_t> is neither collection nor aggregation", !std::is_base_of<AggregationType, EnumerationType<uint32_t>>::value && !std::is_base_of<CollectionType, EnumerationType<uint32_t>>::value);
FACT("P26: an enumeration of uint8_t is enumerated", std::is_base_of<EnumeratedType<uint8_t>, EnumerationType<uint8_t>>::value);
FACT("P26: an enumeration of uint16_t is enumerated", std::is_base_of<EnumeratedType<uint16_t>, EnumerationType<uint16_t>>::value);
FACT("P26: an enumeration of uint32_t is enumerated", std::is_base_of<EnumeratedType<uint32_t>, EnumerationType<uint32_t>>::value);

// --- P14
FACT("P14: the type kept by a member cannot be changed through it", fixed<decltype(std::declval<const Member&>().type())>);
FACT("P14: the type kept by an array cannot be changed through it", fixed<decltype(std::declval<const ArrayType&>().content_type())>);
FACT("P14: the type kept by a sequence cannot be changed through it", fixed<decltype(std::declval<const SequenceType&>().content_type())>);
FACT("P14: the type kept by a map cannot be changed through it", fixed<decltype(std::declval<const MapType&>().content_type())>);
FACT("P14: the type kept by an alias cannot be changed through it", fixed<decltype(std::declval<const AliasType&>().get())>);
FACT("P14: the type kept by a value cannot be changed through it", fixed<decltype(std::declval<const ReadableDynamicDataRef&>().type())>);
FACT("P14: the type kept by a structure cannot be changed through it", fixed<decltype(std::declval<const StructType&>().member(0))>);
FACT("P14: the type kept by a captured type cannot be changed through it", fixed<decltype(*std::declval<const DynamicType::Ptr&>())>);
