#ifndef STORED_CONFIG_H
#define STORED_CONFIG_H
// Analysis configuration: a small target (no unaligned access, no dynamic
// memory, uncompressed streams, store in foreign endianness).
#ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static bool const UnalignedAccess = false;
	static bool const AvoidDynamicMemory = true;
	static bool const StoreInLittleEndian = false;
	static bool const DebuggerListPrefixAlways = true;
	static bool const CompressStreams = false;
	static size_t const DebuggerStreamBufferOverflow = DebuggerStreamBuffer / 8;
};
} // namespace stored
#endif
#endif
