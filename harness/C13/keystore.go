// overlay: common/wallet
package wallet

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"testing"

	"golang.org/x/crypto/scrypt"
	"golang.org/x/crypto/sha3"

	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/crypto"
)

type vfStore struct {
	coin, cip, kdf string
	noCoin         bool
	iv, salt, ct   []byte
	mac            []byte
	addr           string
	dk, n, r, p    int
	drop           string
	secret, pw     []byte
	valid          bool
}

func vfKeccak(b ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func vfCtr(k, iv, x []byte) []byte {
	b, _ := aes.NewCipher(k)
	// counter mode from its definition
	c := append([]byte(nil), iv...)
	r := make([]byte, len(x))
	for i := 0; i < len(x); i += 16 {
		var ks [16]byte
		b.Encrypt(ks[:], c)
		for j := 0; j < 16 && i+j < len(x); j++ {
			r[i+j] = x[i+j] ^ ks[j]
		}
		for j := 15; j >= 0; j-- {
			c[j]++
			if c[j] != 0 {
				break
			}
		}
	}
	return r
}

func (s *vfStore) seal() {
	k, err := scrypt.Key(s.pw, s.salt, s.n, s.r, s.p, s.dk)
	if err != nil {
		panic(err)
	}
	s.ct = vfCtr(k[:16], s.iv, s.secret)
	s.mac = vfKeccak(k[16:32], s.ct)
}

func (s *vfStore) json() []byte {
	kp := map[string]interface{}{"dklen": s.dk, "n": s.n, "r": s.r, "p": s.p, "salt": hex.EncodeToString(s.salt)}
	delete(kp, s.drop)
	cp := map[string]interface{}{"iv": hex.EncodeToString(s.iv)}
	delete(cp, s.drop)
	c := map[string]interface{}{"cipher": s.cip, "cipherparams": cp, "ciphertext": hex.EncodeToString(s.ct), "kdf": s.kdf, "kdfparams": kp, "mac": hex.EncodeToString(s.mac)}
	delete(c, s.drop)
	m := map[string]interface{}{"address": s.addr, "id": "x", "version": 3, "coinType": s.coin, "crypto": c}
	delete(m, s.drop)
	b, _ := json.Marshal(m)
	return b
}

func vfNewStore(r *rand.Rand) *vfStore {
	sk, pk := crypto.GenerateKeyPair()
	s := &vfStore{coin: "icx", cip: "aes-128-ctr", kdf: "scrypt", secret: sk.Bytes(), n: 2, r: 1 + r.Intn(3), p: 1 + r.Intn(3), valid: true}
	s.dk = []int{32, 32, 33, 48, 64, 100}[r.Intn(6)]
	s.iv = vfBytes(r, 16)
	if r.Intn(4) == 0 {
		for i := 8; i < 16; i++ {
			s.iv[i] = 0xff
		}
	}
	s.salt = vfBytes(r, []int{8, 32, 0, 1, 16}[r.Intn(5)])
	s.pw = vfBytes(r, []int{0, 1, 8, 30, 100}[r.Intn(5)])
	s.addr = common.NewAccountAddressFromPublicKey(pk).String()
	s.seal()
	return s
}

func vfOpen(t *testing.T, s *vfStore, pw []byte, what string) {
	data := s.json()
	vfNoPanic(t, fmt.Sprintf("DecryptKeyStore(%s, %q): %s", data, pw, what), func() {
		w, err := DecryptKeyStore(data, pw)
		if (err == nil) != s.valid {
			vfFail(t, "DecryptKeyStore(%s, %x), %s: error %v, expected valid=%v", data, pw, what, err, s.valid)
			return
		}
		if err == nil {
			sw, ok := w.(*softwareWallet)
			if !ok || !bytes.Equal(sw.skey.Bytes(), s.secret) {
				vfFail(t, "DecryptKeyStore(%s, %x), %s: another key", data, pw, what)
			} else if w.Address() != s.addr {
				vfFail(t, "DecryptKeyStore(%s, %x), %s: address %s", data, pw, what, w.Address())
			}
		}
		ks, err := NewKeyStoreData(data)
		if err == nil {
			sk, err := DecryptICONKeyStore(ks, pw)
			if s.coin == "icx" && s.drop != "coinType" && (err == nil) != s.valid {
				vfFail(t, "DecryptICONKeyStore(%s, %x), %s: error %v", data, pw, what, err)
			}
			if err == nil && s.valid && !bytes.Equal(sk.Bytes(), s.secret) {
				vfFail(t, "DecryptICONKeyStore(%s, %x), %s: another key", data, pw, what)
			}
		}
		a, err := ReadAddressFromKeyStore(data)
		if s.coin == "icx" && s.drop != "coinType" && (err != nil || s.drop != "address" && a.String() != s.addr) {
			vfFail(t, "ReadAddressFromKeyStore(%s): %v %v", data, a, err)
		}
		if s.coin != "icx" && err == nil {
			vfFail(t, "ReadAddressFromKeyStore(%s): no error", data)
		}
	})
}

// TestVerifStores: a store opens exactly with its password, with its parameters in order
func TestVerifStores(t *testing.T) {
	r := vfRand()
	hints := vfHints()
	for i := 0; i < vfN(600, 20000); i++ {
		vfCase(t)
		s := vfNewStore(r)
		pw := append([]byte(nil), s.pw...)
		what := "as made"
		switch r.Intn(20) {
		case 0:
			what, s.valid = "wrong password", false
			pw = append(pw, byte(r.Intn(255)+1))
		case 1:
			what, s.valid = "other cipher text", false
			s.ct[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		case 2:
			what, s.valid = "other MAC", false
			s.mac[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		case 3:
			what, s.valid = "MAC cut short", false
			s.mac = s.mac[:[]int{0, 1, 16, 31}[r.Intn(4)]]
		case 4:
			what, s.valid = "other IV", false
			s.iv[r.Intn(16)] ^= 1 << uint(r.Intn(8))
		case 5:
			what, s.valid = "IV length", false
			s.iv = vfBytes(r, []int{0, 1, 12, 15, 17, 32}[r.Intn(6)])
		case 6:
			what, s.valid = "derived key length", false
			s.dk = []int{0, -1, 1, 15, 16, 31, -1000}[r.Intn(7)]
			if len(hints) > 0 && r.Intn(2) == 0 {
				if v := hints[r.Intn(len(hints))]; v.IsInt64() && v.Int64() < 32 {
					s.dk = int(v.Int64())
				}
			}
		case 7:
			what, s.valid = "r or p", false
			if r.Intn(2) == 0 {
				s.r = -r.Intn(2)
			} else {
				s.p = -r.Intn(2)
			}
		case 8:
			what, s.valid = "n", false
			s.n = []int{0, 1, -1, 3, 5, 6}[r.Intn(6)]
		case 9:
			s.drop = []string{"dklen", "n", "r", "p", "salt", "iv", "cipher", "cipherparams", "ciphertext", "kdf", "kdfparams", "mac", "address", "coinType", "crypto"}[r.Intn(15)]
			what, s.valid = "missing "+s.drop, s.drop == "salt" && len(s.salt) == 0
		case 10:
			what, s.valid = "other address", false
			_, pk := crypto.GenerateKeyPair()
			s.addr = common.NewAccountAddressFromPublicKey(pk).String()
		case 11:
			what, s.valid = "secret length", false
			s.secret = vfBytes(r, []int{0, 1, 16, 31, 33, 64}[r.Intn(6)])
			s.seal()
		case 12:
			what, s.valid = "other cipher", false
			s.cip = []string{"", "aes-128-cbc", "AES-128-CTR", "aes-256-ctr"}[r.Intn(4)]
		case 13:
			what, s.valid = "other KDF", false
			s.kdf = []string{"", "pbkdf2", "Scrypt"}[r.Intn(3)]
		case 14:
			what, s.valid = "other coin", false
			s.coin = []string{"btc", "ICX", "icx ", "eth"}[r.Intn(4)]
		case 15:
			what, s.valid = "other salt", false
			s.salt = append(s.salt, byte(1+r.Intn(255)))
		case 16:
			what, s.valid = "password without its end", false
			pw = append(append([]byte(nil), s.pw...), 'x')
			s.pw = pw
			s.seal()
			pw = pw[:len(pw)-1]
			if len(bytes.TrimRight(pw, "\x00")) == 0 {
				pw = []byte("other")
			}
		}
		vfOpen(t, s, pw, what)
	}
}

// TestVerifTrip: a store made for a key opens with the password and with no other, and gives the key back
func TestVerifTrip(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(6, 60); i++ {
		vfCase(t)
		sk, pk := crypto.GenerateKeyPair()
		if i%3 == 1 {
			b := make([]byte, 32)
			copy(b[20+r.Intn(10):], vfBytes(r, 2))
			b[31] |= 1
			sk, _ = crypto.ParsePrivateKey(b)
			pk = sk.PublicKey()
		}
		pw := vfBytes(r, []int{0, 1, 8, 40}[r.Intn(4)])
		data, err := EncryptKeyAsKeyStore(sk, pw)
		if err != nil {
			vfFail(t, "EncryptKeyAsKeyStore(%x, %x): %v", sk.Bytes(), pw, err)
			continue
		}
		w, err := DecryptKeyStore(data, pw)
		if err != nil {
			vfFail(t, "the store of key %x does not open with its password %x: %v (%s)", sk.Bytes(), pw, err, data)
			continue
		}
		if sw, ok := w.(*softwareWallet); !ok || !bytes.Equal(sw.skey.Bytes(), sk.Bytes()) {
			vfFail(t, "the store of key %x opens to another key (%s)", sk.Bytes(), data)
		}
		if _, err := DecryptKeyStore(data, append(append([]byte(nil), pw...), 'x')); err == nil {
			vfFail(t, "the store of key %x opens with another password than %x", sk.Bytes(), pw)
		}
		// the format is the one other tools read
		var ks struct {
			Address string
			Crypto  struct {
				Cipher       string
				CipherParams struct{ IV string }
				CipherText   string
				KDF          string
				KDFParams    struct {
					DKLen, N, R, P int
					Salt           string
				}
				MAC string
			}
		}
		if err := json.Unmarshal(data, &ks); err != nil {
			vfFail(t, "store %s: %v", data, err)
			continue
		}
		salt, _ := hex.DecodeString(ks.Crypto.KDFParams.Salt)
		iv, _ := hex.DecodeString(ks.Crypto.CipherParams.IV)
		ct, _ := hex.DecodeString(ks.Crypto.CipherText)
		k, err := scrypt.Key(pw, salt, ks.Crypto.KDFParams.N, ks.Crypto.KDFParams.R, ks.Crypto.KDFParams.P, ks.Crypto.KDFParams.DKLen)
		if err != nil || len(iv) != 16 || ks.Crypto.MAC != hex.EncodeToString(vfKeccak(k[16:32], ct)) || !bytes.Equal(vfCtr(k[:16], iv, ct), sk.Bytes()) {
			vfFail(t, "the store %s of key %x with password %x is not the one its parameters say (%v)", data, sk.Bytes(), pw, err)
		}
		if ks.Address != common.NewAccountAddressFromPublicKey(pk).String() {
			vfFail(t, "the store of key %x has address %s", sk.Bytes(), ks.Address)
		}
		data2, err := KeyStoreFromWallet(w, pw)
		if err != nil || len(data2) == 0 {
			vfFail(t, "KeyStoreFromWallet: %v", err)
		} else if w2, err := DecryptKeyStore(data2, pw); err != nil || w2.Address() != w.Address() {
			vfFail(t, "the store of a wallet does not open to it: %v", err)
		} else if bytes.Contains(data2, []byte(ks.Crypto.KDFParams.Salt)) || bytes.Contains(data2, []byte(ks.Crypto.CipherParams.IV)) {
			vfFail(t, "two stores share salt or IV: %s %s", data, data2)
		}
	}
}

// TestVerifSealed: what is sealed for a key opens for its holder
func TestVerifSealed(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(60, 2000); i++ {
		vfCase(t)
		a, b := New(), New()
		msg := vfBytes(r, []int{0, 1, 15, 16, 17, 100, 1000}[r.Intn(7)])
		pub := b.PublicKey()
		if r.Intn(2) == 0 {
			pub = b.pkey.SerializeUncompressed()
		}
		vfNoPanic(t, fmt.Sprintf("sealed for %x", pub), func() {
			e, err := NewEncrypted(a, pub, msg)
			if err != nil {
				vfFail(t, "NewEncrypted for %x: %v", pub, err)
				return
			}
			d, err := e.Decrypt(b)
			if err != nil || !bytes.Equal(d, msg) {
				vfFail(t, "%x sealed for %x by %x: opened as %x (%v), param %x", msg, pub, a.PublicKey(), d, err, e.Param)
			}
			if len(msg) > 8 && bytes.Equal(e.CipherText, msg) {
				vfFail(t, "%x not encrypted", msg)
			}
			e.Param = e.Param[:r.Intn(len(e.Param))]
			e.Decrypt(b)
		})
	}
	var _ cipher.Stream
}
