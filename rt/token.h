#pragma once
// A formatted number in the symbolic build: mark, type (d l u b p), 8 bytes
// value, 4 bytes of the format flags that affect it, precision, width, fill
// (blank if width is 0), locale (0 classic).
#define VP_TOKEN_MARK 0x02
#define VP_TOKEN_LEN 18
