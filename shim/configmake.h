#define LOCALEDIR "/nonexistent"
