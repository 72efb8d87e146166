// canConvert matrix of Qt 5.15.13: bit t of row s
static const unsigned long long canConvTable[64] = {
0x0ull,
0x20217f0000147eull,
0x20217f000014feull,
0x20217f000014feull,
0x20217f000014feull,
0x20217f000014feull,
0x20217f0000147eull,
0x13f000004beull,
0x20200010000100ull,
0x20200000000a00ull,
0x20217f4003dc7eull,
0xa00ull,
0x20017f4000147eull,
0x2000ull,
0x14400ull,
0x8400ull,
0x2000000001c400ull,
0x20000000020400ull,
0x40000ull,
0x180000ull,
0x180000ull,
0x600000ull,
0x600000ull,
0x1800000ull,
0x1800000ull,
0x6000000ull,
0x6000000ull,
0x8000000ull,
0x20200010000100ull,
0x20000000ull,
0x20000040001400ull,
0x80000000ull,
0x2021030000003cull,
0x20217f000014feull,
0x20217f000014feull,
0x20210a0000003cull,
0x20217f000014feull,
0x2021220000003cull,
0x20217f0000147eull,
0x8000000000ull,
0x20217f000014feull,
0x20000000000ull,
0x0ull,
0x0ull,
0x20100000000000ull,
0xe8217f1000077eull,
0xa0400010000100ull,
0x60800000000200ull,
0x21000000000000ull,
0x2000000000200ull,
0x4040000000000ull,
0x28200000001400ull,
0x30013f0000003cull,
0x0ull,
0x0ull,
0x0ull,
0x0ull,
0x0ull,
0x0ull,
0x0ull,
0x0ull,
0x0ull,
0x0ull,
0x0ull,
};
