#ifndef STORED_CONFIG_H
#define STORED_CONFIG_H
// Analysis configuration: every optional debugger command compiled in.
#ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
};
} // namespace stored
#endif
#endif
