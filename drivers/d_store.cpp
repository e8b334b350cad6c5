// Instantiates the store templates for the extractor.
#include <stored.h>
#include "VStore.h"

namespace drv {
class PlainStore : public STORE_T(PlainStore, stored::VStoreDefaultFunctions, stored::VStoreBase) {
	STORE_CLASS(PlainStore, stored::VStoreDefaultFunctions, stored::VStoreBase)
public:
	PlainStore() = default;
};

class SyncStore
	: public STORE_T(
		  SyncStore, stored::VStoreDefaultFunctions, stored::Synchronizable,
		  stored::Signalling, stored::VStoreBase) {
	STORE_CLASS(
		SyncStore, stored::VStoreDefaultFunctions, stored::Synchronizable,
		stored::Signalling, stored::VStoreBase)
public:
	SyncStore() = default;
};

// Overrides all hooks.
class HookStore
	: public STORE_T(
		  HookStore, stored::VStoreDefaultFunctions, stored::Synchronizable,
		  stored::Signalling, stored::VStoreBase) {
	STORE_CLASS(
		HookStore, stored::VStoreDefaultFunctions, stored::Synchronizable,
		stored::Signalling, stored::VStoreBase)
public:
	HookStore() = default;

protected:
	void __hookEntryX(stored::Type::type type, void* buffer, size_t len) noexcept;
	void __hookEntryRO(stored::Type::type type, void* buffer, size_t len) noexcept;
	void __hookExitRO(stored::Type::type type, void* buffer, size_t len) noexcept;
	void __hookChanged(stored::Type::type type, void* buffer, size_t len) noexcept;
};

// Override one of the hooks each.
#define HOOK_STORE(C, ...)                                                                     \
	class C                                                                                \
		: public STORE_T(                                                              \
			  C, stored::VStoreDefaultFunctions, stored::Synchronizable,           \
			  stored::VStoreBase) {                                                \
		STORE_CLASS(                                                                   \
			C, stored::VStoreDefaultFunctions, stored::Synchronizable,             \
			stored::VStoreBase)                                                    \
	public:                                                                                \
		C() = default;                                                                 \
                                                                                               \
	protected:                                                                             \
		__VA_ARGS__                                                                    \
	};
HOOK_STORE(EntryStore, void __hookEntryRO(stored::Type::type type, void* buffer, size_t len) noexcept;)
HOOK_STORE(ExitStore, void __hookExitRO(stored::Type::type type, void* buffer, size_t len) noexcept;)
HOOK_STORE(ChangedStore, void __i16__changed() noexcept;)

// The containers the store objects refer to.
typedef PlainStore PBase;
typedef SyncStore SBase;
} // namespace drv

template class stored::VStoreBase<drv::PlainStore>;
template class stored::VStoreBase<drv::SyncStore>;
template class stored::VStoreBase<drv::HookStore>;
template class stored::Synchronizable<stored::VStoreBase<drv::EntryStore>>;
template class stored::Synchronizable<stored::VStoreBase<drv::ExitStore>>;
template class stored::Synchronizable<stored::VStoreBase<drv::ChangedStore>>;
template class stored::Signalling<stored::VStoreBase<drv::HookStore>>;
template class stored::Synchronizable<stored::Signalling<stored::VStoreBase<drv::HookStore>>>;
template class stored::Signalling<stored::VStoreBase<drv::SyncStore>>;
template class stored::Synchronizable<stored::Signalling<stored::VStoreBase<drv::SyncStore>>>;

#define INST(T)                                                    \
	template class stored::Variable<T, drv::PBase, false>;     \
	template class stored::Variable<T, drv::PBase, true>;      \
	template class stored::Function<T, drv::PBase>;            \
	template class stored::FreeVariable<T, drv::PBase>;        \
	template class stored::FreeFunction<T, drv::PBase>;
INST(uint8_t)
INST(int16_t)
INST(uint32_t)
INST(int64_t)
INST(float)
INST(double)
INST(bool)

template <typename V, typename B>
static void use_variant(V v, B b, drv::PlainStore& s)
{
	uint8_t buf[16] = {};
	(void)v.template get<int8_t>();
	v.template set<int8_t>(1);
	(void)v.get(buf, sizeof(buf));
	(void)v.get();
	(void)v.set(buf, sizeof(buf));
	(void)v.set("abc");
	v.entryX();
	v.exitX(true);
	v.entryRO();
	v.exitRO();
	(void)v.type();
	(void)v.size();
	(void)v.buffer();
	(void)v.container();
	(void)v.isFunction();
	(void)v.isVariable();
	(void)v.valid();
	(void)(v == v);
	(void)b;
	(void)s;
}

void drv_use(drv::PlainStore& s)
{
	stored::Variant<drv::PlainStore> v = s.find("/i8");
	use_variant(v, 0, s);
	(void)v.variable<int8_t>();
	(void)v.function<double>();
	stored::Variant<drv::PlainStore> v2(v);
	v2 = v;
	v2.copy(s.find("/i16"));
	int64_t x = s.i64.get();
	s.i64.set(x + 1);
	s.f_rw.set(1.0);
	(void)s.f_rw.get();
	uint8_t fb[8] = {};
	s.f_rw(2.0);
	s.f_rw = 3.0;
	(void)s.f_rw();
	(void)s.f_rw.get(fb, sizeof(fb));
	(void)s.f_rw.set(fb, sizeof(fb));
	(void)s.f_rw.function();
	(void)s.f_u16.get();
	s.f_u16.set(1);
	(void)s.f_u16();
	s.f_u16(2);
	s.f_u16 = 3;
	(void)s.f_u16.get(fb, 2);
	(void)s.f_u16.set(fb, 2);
	(void)s.f_u16.function();
	(void)s.f_bool.get();
	s.f_bool.set(true);
	s.f_bool(true);
	(void)s.f_bool.function();
	(void)s.f_str.get(fb, 4);
	(void)s.f_str.set(fb, 4);
	(void)s.f_blob.get(fb, 2);
	(void)s.f_blob.set(fb, 2);
	(void)s.function<double>("/f rw");
	auto sv = s.str.variant();
	(void)sv.get();
}

void drv_use_sync(drv::SyncStore& s, stored::Synchronizer& y, stored::ProtocolLayer& l)
{
	s.i64.set(1);
	s.connect(s.i64, []() {}, nullptr);
	s.disconnect(s.i64, nullptr);
	stored::Signal<size_t, void*, int> sig;
	sig.connect(1, [](int) {}, nullptr);
	sig.connect([](int) {}, nullptr);
	sig.disconnect(1, nullptr);
	sig.disconnect(1);
	sig.disconnect();
	sig.call(1, 2);
	sig(1, 2);
	sig.call(2);
	sig(2);
	(void)sig.connected(1);
	y.map(s);
	auto& c = y.connect(l);
	y.syncFrom(s, l);
	y.process();
	y.process(l);
	y.disconnect(l);
	y.unmap(s);
	(void)c;
	stored::Debugger d;
	d.map(s);
	d.map(s, "/x");
	d.unmap("/x");
}
