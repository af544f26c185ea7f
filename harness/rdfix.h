// one fixed value for each kind of field of rdtext.h
static void fixed(char f) {
	switch (f) {
	case 'N': put(1); put('a'); put(0); break;
	case '1': put(7); break; case '2': put16(300); break; case '4': put16(1); put16(2); break; case 't': put16(15); break;
	case 'a': put16(0x0102); put16(0x0304); break; case 'G': for (int i = 0; i < 8; i++) put16(0x20); break;
	case '6': case '8': for (int i = 0; i < f - '0'; i++) put(0x5a); break;
	case 'S': case 'l': case 'x': put(2); put16(0x6162); break; case 'R': put(1); put('z'); break;
	case 'B': case 'b': case 'q': put16(0x4142); break;
	case 'P': put(120); put(9); break;
	case 'T': put(0); put(1); put(0x40); break;
	case 'V': put16(3); put16(2); put16(53); break;
	}
}
