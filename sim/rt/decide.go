package rt

import (
	"crypto/sha256"
	"encoding/binary"
	"hash/fnv"
)

// Mix is splitmix64's finaliser.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func HashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Decider makes every scheduling and network choice. Each choice has a stable
// key; generated values are a hash of (seed, key), and the ones that differ
// from the default are recorded. In replay mode only recorded choices apply,
// all others take their default, which is what minimisation removes them to.
type Decider struct {
	Seed   uint64
	Replay bool
	Rec    map[string]int64 // non-default decisions taken (or to replay)
	Order  []string
	pre    map[uint64]int64
	Used   map[string]bool
}

func newDecider(seed uint64) *Decider {
	return &Decider{Seed: seed, Rec: map[string]int64{}, Used: map[string]bool{}}
}

func (d *Decider) SetReplay(rec map[string]int64) {
	d.Replay = true
	d.Rec = rec
	d.pre = map[uint64]int64{}
	for k, v := range rec {
		if len(k) > 4 && k[:4] == "pre/" {
			d.pre[HashStr(k)] = v
		}
	}
}

func (d *Decider) choose(key string, def int64, gen func(h uint64) int64) int64 {
	if d.Replay {
		if v, ok := d.Rec[key]; ok {
			d.use(key)
			return v
		}
		return def
	}
	v := gen(Mix(d.Seed ^ HashStr(key)))
	if v != def {
		d.Rec[key] = v
		d.use(key)
	}
	return v
}

// Choose is choose for other packages.
func (d *Decider) Choose(key string, def int64, gen func(h uint64) int64) int64 {
	return d.choose(key, def, gen)
}

func (d *Decider) use(key string) {
	if !d.Used[key] {
		d.Used[key] = true
		d.Order = append(d.Order, key)
	}
}

func preKey(t *Task) string {
	return "pre/" + t.p.Name + "/" + itoa(t.idx) + "/" + itoa(int(t.pc))
}

func (d *Decider) preempt(w *World, t *Task) (int64, bool) {
	if d.Replay {
		if len(d.pre) == 0 {
			return 0, false
		}
		k := preKey(t)
		if v, ok := d.pre[HashStr(k)]; ok {
			d.use(k)
			return v, true
		}
		return 0, false
	}
	if w.PreemptProb == 0 {
		return 0, false
	}
	h := Mix(t.hash ^ (t.pc * 0x9e3779b97f4a7c15))
	if h >= w.PreemptProb {
		return 0, false
	}
	h = Mix(h)
	var v int64
	switch h % 8 {
	case 0, 1:
		v = 1
	case 2, 3, 4:
		v = int64((h>>8)%20+1) * Millisecond
	case 5, 6:
		v = int64((h>>8)%400+1) * Millisecond
	default:
		v = int64((h>>8)%4000+1) * Millisecond
	}
	k := preKey(t)
	d.Rec[k] = v
	d.use(k)
	return v, true
}

// drbg is a per-process deterministic random bit generator.
type drbg struct {
	key [32]byte
	ctr uint64
	buf []byte
}

func newDRBG(seed uint64, name string) *drbg {
	d := &drbg{}
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], seed)
	d.key = sha256.Sum256(append(b[:], name...))
	return d
}

func (d *drbg) read(p []byte) {
	for i := range p {
		if len(d.buf) == 0 {
			var b [40]byte
			copy(b[:], d.key[:])
			binary.BigEndian.PutUint64(b[32:], d.ctr)
			d.ctr++
			s := sha256.Sum256(b[:])
			d.buf = append([]byte(nil), s[:]...)
		}
		p[i] = d.buf[0]
		d.buf = d.buf[1:]
	}
}

var bootDRBG = newDRBG(42, "boot")

// Entropy fills p with the current process's randomness.
func Entropy(p []byte) {
	t := Cur()
	if t == nil || t.p.entropy == nil {
		bootDRBG.read(p)
		return
	}
	t.p.entropy.read(p)
	if len(p) >= 32 && len(t.p.Draws) < 20000 {
		t.p.Draws = append(t.p.Draws, append([]byte(nil), p...))
	}
}

// RandStream implements cipher.Stream on top of Entropy.
type RandStream struct{}

func (RandStream) XORKeyStream(dst, src []byte) {
	b := make([]byte, len(src))
	Entropy(b)
	for i := range src {
		dst[i] = src[i] ^ b[i]
	}
}
