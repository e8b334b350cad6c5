// Handles to objects of a store, as a user composes them from the public API.
// The analysis decides what each of these functions returns, for all arguments.
#include <stored.h>
#include "VStore.h"

namespace drv {
class HStore : public STORE_T(HStore, stored::VStoreDefaultFunctions, stored::VStoreBase) {
	STORE_CLASS(HStore, stored::VStoreDefaultFunctions, stored::VStoreBase)
public:
	HStore() = default;
};

// Containers around the sizes where another type is required to hold an offset or id.
template <size_t Size, unsigned int Count>
class Big {
public:
	enum { BufferSize = Size, FunctionCount = Count, VariableCount = 1 };
	typedef uintptr_t Key;
	struct Data {
		char buffer[Size];
	};
	char* buffer() noexcept
	{
		return m_data.buffer;
	}
	Key bufferToKey(void const* b) const noexcept
	{
		return (uintptr_t)b - (uintptr_t)m_data.buffer;
	}
	size_t callback(bool, void*, size_t, unsigned int);
	void hookEntryX(stored::Type::type, void*, size_t) noexcept;
	void hookExitX(stored::Type::type, void*, size_t, bool) noexcept;
	void hookEntryRO(stored::Type::type, void*, size_t) noexcept;
	void hookExitRO(stored::Type::type, void*, size_t) noexcept;

private:
	Data m_data;
};
} // namespace drv

using namespace stored;

static Type::type fn(Type::type t)
{
	return (Type::type)((unsigned int)t | (unsigned int)Type::FlagFunction);
}

// ptr_*: the pointer to the object at that offset
template <typename T, typename C>
void* ptr_free(C& c, size_t x)
{
	auto v = Variant<void>(toType<T>::type, x, sizeof(T)).template variable<T, C>().apply(c);
	return v.valid() ? Variant<C>(v).buffer() : nullptr;
}
template <typename T, typename C>
void* ptr_free_unchecked(C& c, size_t x)
{
	return Variant<C>(
		       Variant<void>(toType<T>::type, x, sizeof(T)).template variable<T, C>().apply_(c))
		.buffer();
}
template <typename T, typename C>
void* ptr_typed(C& c, size_t x)
{
	auto v = Variant<void>(toType<T>::type, x, sizeof(T)).template variable<T>(c);
	return v.valid() ? Variant<C>(v).buffer() : nullptr;
}
template <typename T, typename C>
void* ptr_variant(C& c, size_t x)
{
	auto v = Variant<void>(toType<T>::type, x, sizeof(T)).apply(c);
	return v.valid() ? v.buffer() : nullptr;
}
template <typename T, typename C>
void* ptr_back(C& c, size_t x)
{
	return Variant<C>(Variant<void>(toType<T>::type, x, sizeof(T)).apply(c).template variable<T>())
		.buffer();
}

// key_*: the offset
template <typename T, typename C>
size_t key_typed(C& c, size_t x)
{
	return Variant<void>(toType<T>::type, x, sizeof(T)).template variable<T, C>().apply(c).key();
}
template <typename T, typename C>
size_t key_variant(C& c, size_t x)
{
	return Variant<void>(toType<T>::type, x, sizeof(T)).apply(c).key();
}

// id_*: the id of the function
template <typename T, typename C>
unsigned int id_free(C& c, unsigned int x)
{
	auto f = Variant<void>(fn(toType<T>::type), x, sizeof(T)).template function<T, C>().apply(c);
	return f.valid() ? f.id() : 0;
}
template <typename T, typename C>
unsigned int id_free_unchecked(C& c, unsigned int x)
{
	return Variant<void>(fn(toType<T>::type), x, sizeof(T)).template function<T, C>().apply_(c).id();
}
template <typename T, typename C>
unsigned int id_typed(C& c, unsigned int x)
{
	auto f = Variant<void>(fn(toType<T>::type), x, sizeof(T)).template function<T>(c);
	return f.valid() ? f.id() : 0;
}
template <typename T, typename C>
unsigned int id_back(C& c, unsigned int x)
{
	return Variant<C>(Variant<void>(fn(toType<T>::type), x, sizeof(T)).template function<T>(c))
		.template function<T>()
		.id();
}

// own_*: the given container
template <typename T, typename C>
C* own_free(C& c, size_t x)
{
	return &Variant<void>(toType<T>::type, x, sizeof(T)).template variable<T, C>().apply(c).container();
}
template <typename T, typename C>
C* own_variant(C& c, size_t x)
{
	return &Variant<void>(toType<T>::type, x, sizeof(T)).apply(c).container();
}
template <typename T, typename C>
C* own_fvariant(C& c, unsigned int x)
{
	return &Variant<void>(fn(toType<T>::type), x, sizeof(T)).apply(c).container();
}
template <typename T, typename C>
C* own_fn(C& c, unsigned int x)
{
	return &Variant<void>(fn(toType<T>::type), x, sizeof(T)).template function<T, C>().apply(c).container();
}

// type_*: the type that is given
template <typename T, typename C>
Type::type type_variant(C& c, size_t x)
{
	return Variant<void>(toType<T>::type, x, sizeof(T)).apply(c).type();
}
template <typename T, typename C>
Type::type type_typed(C& c, size_t x)
{
	return Variant<C>(Variant<void>(toType<T>::type, x, sizeof(T)).template variable<T, C>().apply(c)).type();
}
template <typename T, typename C>
Type::type ftype_variant(C& c, unsigned int x)
{
	return Variant<void>(fn(toType<T>::type), x, sizeof(T)).apply(c).type();
}
template <typename T, typename C>
Type::type ftype_typed(C& c, unsigned int x)
{
	return Variant<C>(Variant<void>(fn(toType<T>::type), x, sizeof(T)).template function<T>(c)).type();
}

// tsize_*: the size of the type
template <typename T, typename C>
size_t tsize_variant(C& c, size_t x)
{
	return Variant<void>(toType<T>::type, x, sizeof(T)).apply(c).size();
}
template <typename T, typename C>
size_t tsize_typed(C& c, size_t x)
{
	return Variant<C>(Variant<void>(toType<T>::type, x, sizeof(T)).template variable<T, C>().apply(c)).size();
}
template <typename T, typename C>
size_t tsize_fvariant(C& c, unsigned int x)
{
	return Variant<void>(fn(toType<T>::type), x, sizeof(T)).apply(c).size();
}

// len_*: the length that is given
template <typename T, typename C>
size_t len_string(C& c, size_t x, size_t len)
{
	return Variant<void>(Type::String, x, len).apply(c).size();
}
template <typename T, typename C>
size_t len_blob(C& c, size_t x, size_t len)
{
	return Variant<void>(Type::Blob, x, len).apply(c).size();
}
template <typename T, typename C>
size_t len_fblob(C& c, size_t x, size_t len)
{
	return Variant<void>(fn(Type::Blob), x, len).apply(c).size();
}

// no_*: false
template <typename T, typename C>
bool no_free(C& c)
{
	return FreeVariable<T, C>().apply(c).valid();
}
template <typename T, typename C>
bool no_fn(C& c)
{
	return FreeFunction<T, C>().apply(c).valid();
}
template <typename T, typename C>
bool no_variant(C& c)
{
	return Variant<void>().apply(c).valid();
}
template <typename T, typename C>
bool no_var_of_variant(C& c)
{
	return Variant<void>().template variable<T, C>().apply(c).valid();
}
template <typename T, typename C>
bool no_fn_of_variant(C& c)
{
	return Variant<void>().template function<T, C>().apply(c).valid();
}
template <typename T, typename C>
bool no_variant_of_var(C&)
{
	return Variant<C>(Variable<T, C>()).valid();
}
template <typename T, typename C>
bool no_variant_of_fn(C&)
{
	return Variant<C>(Function<T, C>()).valid();
}

// eq_*: whether both are the same
template <typename T, typename C>
bool eq_free(C&, size_t x, size_t y)
{
	return Variant<void>(toType<T>::type, x, sizeof(T)).template variable<T, C>()
	       == Variant<void>(toType<T>::type, y, sizeof(T)).template variable<T, C>();
}
template <typename T, typename C>
bool eq_typed(C& c, size_t x, size_t y)
{
	return Variant<void>(toType<T>::type, x, sizeof(T)).template variable<T>(c)
	       == Variant<void>(toType<T>::type, y, sizeof(T)).template variable<T>(c);
}
template <typename T, typename C>
bool eq_variant(C& c, size_t x, size_t y)
{
	return Variant<void>(toType<T>::type, x, sizeof(T)).apply(c)
	       == Variant<void>(toType<T>::type, y, sizeof(T)).apply(c);
}
template <typename T, typename C>
bool feq_free(C&, unsigned int x, unsigned int y)
{
	return Variant<void>(fn(toType<T>::type), x, sizeof(T)).template function<T, C>()
	       == Variant<void>(fn(toType<T>::type), y, sizeof(T)).template function<T, C>();
}
template <typename T, typename C>
bool feq_typed(C& c, unsigned int x, unsigned int y)
{
	return Variant<void>(fn(toType<T>::type), x, sizeof(T)).template function<T>(c)
	       == Variant<void>(fn(toType<T>::type), y, sizeof(T)).template function<T>(c);
}
template <typename T, typename C>
bool feq_variant(C& c, unsigned int x, unsigned int y)
{
	return Variant<void>(fn(toType<T>::type), x, sizeof(T)).apply(c)
	       == Variant<void>(fn(toType<T>::type), y, sizeof(T)).apply(c);
}
template <typename T, typename C>
bool ne_other_store(C& c, C& d, size_t x)
{
	return Variant<void>(toType<T>::type, x, sizeof(T)).apply(c)
	       != Variant<void>(toType<T>::type, x, sizeof(T)).apply(d);
}
template <typename T, typename C>
bool ne_other_fstore(C& c, C& d, unsigned int x)
{
	return Variant<void>(fn(toType<T>::type), x, sizeof(T)).apply(c)
	       != Variant<void>(fn(toType<T>::type), x, sizeof(T)).apply(d);
}

template <typename T, typename C>
static void handles(C& c, size_t x, unsigned int f)
{
	(void)ptr_free<T, C>(c, x);
	(void)ptr_free_unchecked<T, C>(c, x);
	(void)ptr_typed<T, C>(c, x);
	(void)ptr_variant<T, C>(c, x);
	(void)ptr_back<T, C>(c, x);
	(void)key_typed<T, C>(c, x);
	(void)key_variant<T, C>(c, x);
	(void)id_free<T, C>(c, f);
	(void)id_free_unchecked<T, C>(c, f);
	(void)id_typed<T, C>(c, f);
	(void)id_back<T, C>(c, f);
	(void)own_free<T, C>(c, x);
	(void)own_variant<T, C>(c, x);
	(void)own_fvariant<T, C>(c, f);
	(void)own_fn<T, C>(c, f);
	(void)type_variant<T, C>(c, x);
	(void)type_typed<T, C>(c, x);
	(void)ftype_variant<T, C>(c, f);
	(void)ftype_typed<T, C>(c, f);
	(void)tsize_variant<T, C>(c, x);
	(void)tsize_typed<T, C>(c, x);
	(void)tsize_fvariant<T, C>(c, f);
	(void)len_string<T, C>(c, x, x);
	(void)len_blob<T, C>(c, x, x);
	(void)len_fblob<T, C>(c, x, x);
	(void)no_free<T, C>(c);
	(void)no_fn<T, C>(c);
	(void)no_variant<T, C>(c);
	(void)no_var_of_variant<T, C>(c);
	(void)no_fn_of_variant<T, C>(c);
	(void)no_variant_of_var<T, C>(c);
	(void)no_variant_of_fn<T, C>(c);
	(void)eq_free<T, C>(c, x, x);
	(void)eq_typed<T, C>(c, x, x);
	(void)eq_variant<T, C>(c, x, x);
	(void)feq_free<T, C>(c, f, f);
	(void)feq_typed<T, C>(c, f, f);
	(void)feq_variant<T, C>(c, f, f);
	(void)ne_other_store<T, C>(c, c, x);
	(void)ne_other_fstore<T, C>(c, c, f);
}

// The members of a store.
template <typename O>
static void member(O& o)
{
	(void)o.variant();
	(void)o.key();
	(void)o.size();
}

void drv_handles(
	drv::HStore& s, drv::Big<255, 255>& b1, drv::Big<256, 256>& b2, drv::Big<257, 257>& b3,
	drv::Big<65535, 65535>& b4, drv::Big<65536, 65536>& b5, drv::Big<65544, 65537>& b6, size_t x, unsigned int f)
{
	handles<uint8_t>(s, x, f);
	handles<int16_t>(s, x, f);
	handles<uint32_t>(s, x, f);
	handles<double>(s, x, f);
	handles<bool>(s, x, f);
	handles<uint8_t>(b1, x, f);
	handles<uint8_t>(b2, x, f);
	handles<uint16_t>(b2, x, f);
	handles<uint8_t>(b3, x, f);
	handles<uint8_t>(b4, x, f);
	handles<uint8_t>(b5, x, f);
	handles<uint16_t>(b5, x, f);
	handles<uint8_t>(b6, x, f);
	member(s.i8);
	member(s.i16);
	member(s.i32_42);
	member(s.i64);
	member(s.u8);
	member(s.u16);
	member(s.u32);
	member(s.u64);
	member(s.f_1);
	member(s.d);
	member(s.b_true);
	member(s.blob);
	member(s.str);
	member(s.str_init);
	member(s.b3);
	member(s.s1);
	(void)s.f_rw.variant();
	(void)s.f_u16.variant();
	(void)s.f_bool.variant();
	(void)s.f_str.variant();
	(void)s.f_blob.variant();
}
