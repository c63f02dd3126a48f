#!/opt/veriftools/pyvenv/bin/python3
"""Write lib/rfc3526.h from RFC 3526's formula."""
import mpmath
mpmath.mp.prec=4000
p=2**2048-2**1984+2**64*(int(mpmath.floor(mpmath.mpf(2)**1918*mpmath.pi))+124476)-1
b=p.to_bytes(256,'big')
s='/* RFC 3526 group 14: 2^2048 - 2^1984 - 1 + 2^64 * ([2^1918 pi] + 124476), computed from that formula. */\nstatic const uint8_t rfc3526_14[256] = {\n'
for i in range(0,256,16): s+='\t'+', '.join('0x%02x'%x for x in b[i:i+16])+',\n'
s+='};\n'
open('lib/rfc3526.h','w').write(s)
