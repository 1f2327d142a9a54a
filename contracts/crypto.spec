package xls/crypto

// blockkey: the cipher key of a block, a function of the first five bytes of the
// password digest and the block number (MD5 of the nine bytes)
ghostfunc blockkey(Int, Int, Int, Int, Int, Int) Seq
axiom blockkey (S Seq) {app("md5", IntArr, S)} imp(app("qlen", Int, S) == 9 && forall(k, 0, 9, 0 <= app("qat", Int, S, k) && app("qat", Int, S, k) <= 255), app("mkseq", Seq, app("md5", IntArr, S), 0, 16) == blockkey(app("qat", Int, S, 0), app("qat", Int, S, 1), app("qat", Int, S, 2), app("qat", Int, S, 3), app("qat", Int, S, 4), app("qat", Int, S, 5) + 256*app("qat", Int, S, 6) + 65536*app("qat", Int, S, 7) + 16777216*app("qat", Int, S, 8)))

define KEY(d, b) = blockkey(int(d.encKey[0]), int(d.encKey[1]), int(d.encKey[2]), int(d.encKey[3]), int(d.encKey[4]), b)
define KS(d, p) = app("ks", Int, KEY(d, p/1024), p%1024)
define BUF(d) = heap("X|bufseq", Seq, &d.buf)
define buflen(d) = app("qlen", Int, BUF(d))
define bufat(d, p) = app("qat", Int, BUF(d), p)
define keyok(d) = len(d.Salt) == 16 && len(d.encKey) == 16
define saltok(d) = len(d.Salt) == 16 && (d.encKey == nil || len(d.encKey) == 16) && refof(d.encKey) != &d.bytes && refof(d.Salt) != &d.bytes

func generateStd97Key
requires len(passData) > 0 && len(passData) <= 10000 && len(salt) == 16
ensures len(r0) == 16 && fresh(r0)

func rc4Writer.SetPassword
requires len(password) > 0 && len(password) <= 10000 && len(d.Salt) == 16
modifies d.Password, d.encKey
ensures len(d.encKey) == 16 && fresh(d.encKey)

func rc4Writer.startBlock
requires saltok(d)
requires len(DefaultXLSPassword) > 0 && len(DefaultXLSPassword) <= 10000
modifies d.Password, d.encKey, d.cipherKey, d.dec
ensures len(d.encKey) == 16 && imp(old(d.encKey) != nil, d.encKey == old(d.encKey) && seq(d.encKey) == old(seq(d.encKey)))
ensures imp(old(d.encKey) == nil, fresh(d.encKey))
ensures d.dec != nil && fresh(d.dec) && heap("X|rc4key", Seq, d.dec) == KEY(d, int(d.block)) && heap("X|rc4pos", Int, d.dec) == 0

define dok(d) = saltok(d) && 0 <= d.offset && d.offset < 1024 && int(d.block) <= 2097152
define PW() = len(DefaultXLSPassword) > 0 && len(DefaultXLSPassword) <= 10000
func rc4Writer.Flush
requires saltok(d) && 0 <= d.offset && d.offset <= 1024 && int(d.block) < 2097152 && PW()
requires buflen(d) == 1024 * int(d.block)
modifies d.Password, d.encKey, d.cipherKey, d.dec, d.offset, d.block, d.bytes, heap("X|bufseq", &d.buf)
ensures d.offset == 0 && int(d.block) == old(int(d.block)) + 1 && len(d.encKey) == 16 && imp(old(d.encKey) != nil, d.encKey == old(d.encKey) && seq(d.encKey) == old(seq(d.encKey)))
ensures saltok(d) && imp(old(d.encKey) == nil, fresh(d.encKey))
ensures buflen(d) == old(buflen(d)) + old(d.offset)
ensures [C08] forall(p, 0, old(buflen(d)), bufat(d, p) == old(bufat(d, p)))
ensures [C08] heap("X|rc4key", Seq, d.dec) == KEY(d, old(int(d.block)))
ensures [C08] forall(q, 0, old(d.offset), bufat(d, old(buflen(d)) + q) == bxor(int(old(d.bytes[q])), app("ks", Int, heap("X|rc4key", Seq, d.dec), q)))

func rc4Writer.Reset
modifies d.block, d.offset, heap("X|bufseq", &d.buf)
ensures d.block == 0 && d.offset == 0 && buflen(d) == 0

// what the stream of bytes given so far has become: decrypted blocks in the buffer, the rest pending
define cpos(d) = 1024 * int(d.block) + d.offset
define cin(d, data, p) = ite(p < old(cpos(d)), int(old(d.bytes)[p - old(1024 * int(d.block))]), int(byteat(data, p - old(cpos(d)))))
define DONE(d, data) = forall(p, 0, 1024 * int(d.block), bufat(d, p) == ite(p < old(buflen(d)), old(bufat(d, p)), bxor(cin(d, data, p), app("ks", Int, KEY(d, p/1024), p%1024))))
define PEND(d, data) = forall(q, 0, d.offset, int(d.bytes[q]) == cin(d, data, 1024 * int(d.block) + q))
func rc4Writer.Write
requires saltok(d) && 0 <= d.offset && d.offset < 1024 && int(d.block) <= 1048576 && PW()
requires len(data) <= 67108864
requires buflen(d) == 1024 * int(d.block)
requires refof(data) != &d.bytes
modifies d.Password, d.encKey, d.cipherKey, d.dec, d.offset, d.block, d.bytes, heap("X|bufseq", &d.buf)
inv saltok(d) && 0 <= d.offset && d.offset < 1024 && buflen(d) == 1024 * int(d.block)
inv refof(data) == refof(old(data)) && off(data) == off(old(data)) + len(old(data)) - len(data) && len(data) <= len(old(data))
inv cpos(d) == old(cpos(d)) + len(old(data)) - len(data)
inv int(d.block) >= old(int(d.block)) && imp(int(d.block) > old(int(d.block)), len(d.encKey) == 16)
inv imp(old(d.encKey) != nil, d.encKey == old(d.encKey) && seq(d.encKey) == old(seq(d.encKey)))
inv imp(old(d.encKey) == nil && d.encKey != nil, fresh(d.encKey))
inv {pend} PEND(d, old(data))
inv {done: pend done} DONE(d, old(data))
decreases len(data)
ensures r0 == len(data) && r1 == nil
ensures saltok(d) && 0 <= d.offset && d.offset < 1024 && buflen(d) == 1024 * int(d.block)
ensures cpos(d) == old(cpos(d)) + len(data)
ensures [C08] PEND(d, old(data))
ensures [C08] DONE(d, old(data))

func rc4Writer.Verify
requires saltok(d) && PW() && len(everifier) <= 16 && len(everifierHash) <= 16
requires refof(everifier) != &d.bytes && refof(everifierHash) != &d.bytes
modifies d.block, d.offset, heap("X|bufseq", &d.buf), d.Password, d.encKey, d.cipherKey, d.dec
ensures saltok(d) && d.block == 0 && d.offset == 0 && buflen(d) == 0

define decok(x) = saltok(x) && x.block == 0 && x.offset == 0 && buflen(x) == 0
func NewBasicRC4
requires PW()
ensures imp(r1 == nil, typeis(r0, *rc4Writer) && as(r0, *rc4Writer) != nil && decok(as(r0, *rc4Writer)) && fresh(as(r0, *rc4Writer)))

func rc4Writer.Bytes
contract
ensures len(r0) == buflen(d)
ensures [C08] forall(p, 0, len(r0), int(r0[p]) == bufat(d, p))
define decq(x) = typeis(x, *rc4Writer) && as(x, *rc4Writer) != nil && decok(as(x, *rc4Writer))
define decp(x, n) = typeis(x, *rc4Writer) && as(x, *rc4Writer) != nil && dok(as(x, *rc4Writer)) && cpos(as(x, *rc4Writer)) == n && buflen(as(x, *rc4Writer)) == 1024 * int(as(x, *rc4Writer).block)
define nobuf(x, raw) = refof(raw) != &as(x, *rc4Writer).bytes
define outlen(x) = buflen(as(x, *rc4Writer))
