/* FIPS 180-4, one step per line: Q(round function, index of the word, constant); words from 16 on extend the schedule */
QA(CH, 0, 0x5a827999u)
QA(CH, 1, 0x5a827999u)
QA(CH, 2, 0x5a827999u)
QA(CH, 3, 0x5a827999u)
QA(CH, 4, 0x5a827999u)
QA(CH, 5, 0x5a827999u)
QA(CH, 6, 0x5a827999u)
QA(CH, 7, 0x5a827999u)
QA(CH, 8, 0x5a827999u)
QA(CH, 9, 0x5a827999u)
QA(CH, 10, 0x5a827999u)
QA(CH, 11, 0x5a827999u)
QA(CH, 12, 0x5a827999u)
QA(CH, 13, 0x5a827999u)
QA(CH, 14, 0x5a827999u)
QA(CH, 15, 0x5a827999u)
QB(CH, 16, 0x5a827999u)
QB(CH, 17, 0x5a827999u)
QB(CH, 18, 0x5a827999u)
QB(CH, 19, 0x5a827999u)
QB(PA, 20, 0x6ed9eba1u)
QB(PA, 21, 0x6ed9eba1u)
QB(PA, 22, 0x6ed9eba1u)
QB(PA, 23, 0x6ed9eba1u)
QB(PA, 24, 0x6ed9eba1u)
QB(PA, 25, 0x6ed9eba1u)
QB(PA, 26, 0x6ed9eba1u)
QB(PA, 27, 0x6ed9eba1u)
QB(PA, 28, 0x6ed9eba1u)
QB(PA, 29, 0x6ed9eba1u)
QB(PA, 30, 0x6ed9eba1u)
QB(PA, 31, 0x6ed9eba1u)
QB(PA, 32, 0x6ed9eba1u)
QB(PA, 33, 0x6ed9eba1u)
QB(PA, 34, 0x6ed9eba1u)
QB(PA, 35, 0x6ed9eba1u)
QB(PA, 36, 0x6ed9eba1u)
QB(PA, 37, 0x6ed9eba1u)
QB(PA, 38, 0x6ed9eba1u)
QB(PA, 39, 0x6ed9eba1u)
QB(MA, 40, 0x8f1bbcdcu)
QB(MA, 41, 0x8f1bbcdcu)
QB(MA, 42, 0x8f1bbcdcu)
QB(MA, 43, 0x8f1bbcdcu)
QB(MA, 44, 0x8f1bbcdcu)
QB(MA, 45, 0x8f1bbcdcu)
QB(MA, 46, 0x8f1bbcdcu)
QB(MA, 47, 0x8f1bbcdcu)
QB(MA, 48, 0x8f1bbcdcu)
QB(MA, 49, 0x8f1bbcdcu)
QB(MA, 50, 0x8f1bbcdcu)
QB(MA, 51, 0x8f1bbcdcu)
QB(MA, 52, 0x8f1bbcdcu)
QB(MA, 53, 0x8f1bbcdcu)
QB(MA, 54, 0x8f1bbcdcu)
QB(MA, 55, 0x8f1bbcdcu)
QB(MA, 56, 0x8f1bbcdcu)
QB(MA, 57, 0x8f1bbcdcu)
QB(MA, 58, 0x8f1bbcdcu)
QB(MA, 59, 0x8f1bbcdcu)
QB(PA, 60, 0xca62c1d6u)
QB(PA, 61, 0xca62c1d6u)
QB(PA, 62, 0xca62c1d6u)
QB(PA, 63, 0xca62c1d6u)
QB(PA, 64, 0xca62c1d6u)
QB(PA, 65, 0xca62c1d6u)
QB(PA, 66, 0xca62c1d6u)
QB(PA, 67, 0xca62c1d6u)
QB(PA, 68, 0xca62c1d6u)
QB(PA, 69, 0xca62c1d6u)
QB(PA, 70, 0xca62c1d6u)
QB(PA, 71, 0xca62c1d6u)
QB(PA, 72, 0xca62c1d6u)
QB(PA, 73, 0xca62c1d6u)
QB(PA, 74, 0xca62c1d6u)
QB(PA, 75, 0xca62c1d6u)
QB(PA, 76, 0xca62c1d6u)
QB(PA, 77, 0xca62c1d6u)
QB(PA, 78, 0xca62c1d6u)
QB(PA, 79, 0xca62c1d6u)
