// Package a03: configuration validation rejects exactly the unusable entries.
package a03

import (
	"strconv"

	"github.com/superisaac/jlib/http"
	"verif/harness/v"
)

var _ = v.Reg("a03.CheckAuth", CheckAuth)
var _ = v.Reg("a03.CheckTLS", CheckTLS)

// CheckAuth: every authentication configuration.
//
// Up to 2 (3) Basic and 2 (3) Bearer entries with texts of up to 2 bytes with and without settings, nil,
// empty or filled lists, a token section absent, empty or filled.
//
//v:reach=valid,invalid,nil time=30
func CheckAuth() {
	if v.Choose("nil", 2) == 1 {
		v.Reach("nil")
		var none *jlibhttp.AuthConfig
		v.Assert(none.ValidateValues() == nil, "no configuration is valid")
		return
	}
	cfg := &jlibhttp.AuthConfig{}
	bad := false
	n := v.Choose("basics", v.N(4, 5))
	if n > 0 {
		cfg.Basic = []jlibhttp.BasicAuthConfig{}
	}
	for i := 0; i+1 < n; i++ {
		t := strconv.Itoa(i)
		b := jlibhttp.BasicAuthConfig{Username: v.ASCII("user"+t, 2), Password: v.ASCII("pass"+t, 2)}
		if v.Choose("settings"+t, 2) == 1 {
			b.Settings = map[string]interface{}{"k": "v"}
		}
		bad = v.Or(bad, b.Username == "", b.Password == "")
		cfg.Basic = append(cfg.Basic, b)
	}
	n = v.Choose("bearers", v.N(4, 5))
	if n > 0 {
		cfg.Bearer = []jlibhttp.BearerAuthConfig{}
	}
	for i := 0; i+1 < n; i++ {
		t := strconv.Itoa(i)
		b := jlibhttp.BearerAuthConfig{Token: v.ASCII("token"+t, 2), Username: v.ASCII("name"+t, 1)}
		if v.Choose("bsettings"+t, 2) == 1 {
			b.Settings = map[string]interface{}{"k": "v"}
		}
		bad = v.Or(bad, b.Token == "")
		cfg.Bearer = append(cfg.Bearer, b)
	}
	if v.Choose("jwt", 2) == 1 {
		cfg.Jwt = &jlibhttp.JwtAuthConfig{Secret: v.ASCII("secret", 2)}
		bad = v.Or(bad, cfg.Jwt.Secret == "")
	}
	if err := cfg.ValidateValues(); bad {
		v.Reach("invalid")
		v.Assert(err != nil, "a configuration with an unusable entry is rejected")
	} else {
		v.Reach("valid")
		v.Assert(err == nil, "a configuration without unusable entries is accepted")
	}
}

// CheckTLS: every TLS configuration.
//
// File names of up to 3 bytes; the missing configuration.
//
//v:reach=valid,invalid time=30
func CheckTLS() {
	if v.Choose("nil", 2) == 1 {
		var none *jlibhttp.TLSConfig
		v.Assert(none.ValidateValues() == nil, "no configuration is valid")
		return
	}
	cfg := &jlibhttp.TLSConfig{Certfile: v.ASCII("cert", 3), Keyfile: v.ASCII("key", 3)}
	if err := cfg.ValidateValues(); v.Or(cfg.Certfile == "", cfg.Keyfile == "") {
		v.Reach("invalid")
		v.Assert(err != nil, "a TLS configuration without a file is rejected")
	} else {
		v.Reach("valid")
		v.Assert(err == nil, "a TLS configuration with both files is accepted")
	}
}
