/* RFC 1321, one step per line: Q(round function, index of the word, shift, constant floor(2^32 |sin(i + 1)|)) */
Q(F, 0, 7, 0xd76aa478u)
Q(F, 1, 12, 0xe8c7b756u)
Q(F, 2, 17, 0x242070dbu)
Q(F, 3, 22, 0xc1bdceeeu)
Q(F, 4, 7, 0xf57c0fafu)
Q(F, 5, 12, 0x4787c62au)
Q(F, 6, 17, 0xa8304613u)
Q(F, 7, 22, 0xfd469501u)
Q(F, 8, 7, 0x698098d8u)
Q(F, 9, 12, 0x8b44f7afu)
Q(F, 10, 17, 0xffff5bb1u)
Q(F, 11, 22, 0x895cd7beu)
Q(F, 12, 7, 0x6b901122u)
Q(F, 13, 12, 0xfd987193u)
Q(F, 14, 17, 0xa679438eu)
Q(F, 15, 22, 0x49b40821u)
Q(G, 1, 5, 0xf61e2562u)
Q(G, 6, 9, 0xc040b340u)
Q(G, 11, 14, 0x265e5a51u)
Q(G, 0, 20, 0xe9b6c7aau)
Q(G, 5, 5, 0xd62f105du)
Q(G, 10, 9, 0x02441453u)
Q(G, 15, 14, 0xd8a1e681u)
Q(G, 4, 20, 0xe7d3fbc8u)
Q(G, 9, 5, 0x21e1cde6u)
Q(G, 14, 9, 0xc33707d6u)
Q(G, 3, 14, 0xf4d50d87u)
Q(G, 8, 20, 0x455a14edu)
Q(G, 13, 5, 0xa9e3e905u)
Q(G, 2, 9, 0xfcefa3f8u)
Q(G, 7, 14, 0x676f02d9u)
Q(G, 12, 20, 0x8d2a4c8au)
Q(H, 5, 4, 0xfffa3942u)
Q(H, 8, 11, 0x8771f681u)
Q(H, 11, 16, 0x6d9d6122u)
Q(H, 14, 23, 0xfde5380cu)
Q(H, 1, 4, 0xa4beea44u)
Q(H, 4, 11, 0x4bdecfa9u)
Q(H, 7, 16, 0xf6bb4b60u)
Q(H, 10, 23, 0xbebfbc70u)
Q(H, 13, 4, 0x289b7ec6u)
Q(H, 0, 11, 0xeaa127fau)
Q(H, 3, 16, 0xd4ef3085u)
Q(H, 6, 23, 0x04881d05u)
Q(H, 9, 4, 0xd9d4d039u)
Q(H, 12, 11, 0xe6db99e5u)
Q(H, 15, 16, 0x1fa27cf8u)
Q(H, 2, 23, 0xc4ac5665u)
Q(I, 0, 6, 0xf4292244u)
Q(I, 7, 10, 0x432aff97u)
Q(I, 14, 15, 0xab9423a7u)
Q(I, 5, 21, 0xfc93a039u)
Q(I, 12, 6, 0x655b59c3u)
Q(I, 3, 10, 0x8f0ccc92u)
Q(I, 10, 15, 0xffeff47du)
Q(I, 1, 21, 0x85845dd1u)
Q(I, 8, 6, 0x6fa87e4fu)
Q(I, 15, 10, 0xfe2ce6e0u)
Q(I, 6, 15, 0xa3014314u)
Q(I, 13, 21, 0x4e0811a1u)
Q(I, 4, 6, 0xf7537e82u)
Q(I, 11, 10, 0xbd3af235u)
Q(I, 2, 15, 0x2ad7d2bbu)
Q(I, 9, 21, 0xeb86d391u)
