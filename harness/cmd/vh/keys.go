package main

import (
	"bytes"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"sync"

	"aead.dev/minisign"
	"filippo.io/age"
	"github.com/ProtonMail/go-crypto/openpgp"
)

//go:embed keys.json
var keysJSON []byte

type keyFixture struct {
	Age      []string `json:"age"`
	PGP      []string `json:"pgp"`      // base64 serialized private key rings (unencrypted)
	Minisign []string `json:"minisign"` // raw private keys (text)
}

type keySet struct {
	ageID  *age.X25519Identity
	pgp    openpgp.EntityList
	pgpPub openpgp.EntityList
	mini   minisign.PrivateKey
}

var (
	keysOnce sync.Once
	keyPairs []keySet
)

// keyN returns key set n (0: the legitimate one, 1: a foreign one).
func keyN(n int) keySet {
	keysOnce.Do(func() {
		var f keyFixture
		if err := json.Unmarshal(keysJSON, &f); err != nil {
			harnessf("keys.json: %v", err)
		}
		for i := range f.Age {
			var k keySet
			id, err := age.ParseX25519Identity(f.Age[i])
			if err != nil {
				harnessf("age key: %v", err)
			}
			k.ageID = id
			raw, _ := base64.StdEncoding.DecodeString(f.PGP[i])
			if k.pgp, err = openpgp.ReadKeyRing(bytes.NewReader(raw)); err != nil {
				harnessf("pgp key: %v", err)
			}
			var pub bytes.Buffer
			for _, e := range k.pgp {
				if err := e.Serialize(&pub); err != nil {
					harnessf("pgp pub: %v", err)
				}
			}
			if k.pgpPub, err = openpgp.ReadKeyRing(&pub); err != nil {
				harnessf("pgp pub: %v", err)
			}
			if err := k.mini.UnmarshalText([]byte(f.Minisign[i])); err != nil {
				harnessf("minisign key: %v", err)
			}
			keyPairs = append(keyPairs, k)
		}
	})
	return keyPairs[n]
}

func (k keySet) encRecipient(format string) interface{} {
	switch format {
	case "age":
		return k.ageID.Recipient()
	case "pgp":
		return k.pgpPub
	}
	return []byte{}
}

func (k keySet) encIdentity(format string) interface{} {
	switch format {
	case "age":
		return k.ageID
	case "pgp":
		return k.pgp
	}
	return []byte{}
}

func (k keySet) sigRecipient(format string) interface{} {
	switch format {
	case "minisign":
		return k.mini.Public().(minisign.PublicKey)
	case "pgp":
		return k.pgpPub
	}
	return []byte{}
}

func (k keySet) sigIdentity(format string) interface{} {
	switch format {
	case "minisign":
		return k.mini
	case "pgp":
		return k.pgp
	}
	return []byte{}
}
