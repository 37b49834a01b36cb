package main

import "fmt"

// Library models written in Go (package verif/harness/model): the engine
// executes the model body in place of the library function.

const modelPkg = harnessModule + "/model"

func redirect(name, model string) {
	reg(name, func(fr *Frame, args []Value) Value {
		prog := fr.p.w.prog
		if !prog.hasPkg(modelPkg) {
			return notHandled{}
		}
		return fr.p.callFn(fr.th, fr, prog.lookupFn(modelPkg, model), args, nil)
	})
}

func initNetIntr() {
	reg(modelPkg+".concrete", func(fr *Frame, args []Value) Value {
		if sl, ok := args[0].([]Value); ok {
			_, ok := mkStr(sl).(string)
			return BoolC(ok)
		}
		return BoolC(args[0] == nil)
	})
	reg("unique.Make", func(fr *Frame, args []Value) Value {
		w := fr.p.w
		if w.uniq == nil {
			w.uniq = map[string]Ptr{}
		}
		k := fmt.Sprintf("%#v", args[0])
		c := w.uniq[k]
		if c == nil {
			c = fr.p.newCell(args[0])
			w.uniq[k] = c
		}
		return Struct{c}
	})
	redirect("(*github.com/gorilla/websocket.Upgrader).Upgrade", "WSUpgrade")
	redirect("(*github.com/gorilla/websocket.Dialer).Dial", "WSDial")
	redirect("(*github.com/gorilla/websocket.Dialer).DialContext", "WSDialContext")
	redirect("(*github.com/gorilla/websocket.Conn).SetReadDeadline", "WSSetDeadline")
	redirect("(*github.com/gorilla/websocket.Conn).SetWriteDeadline", "WSSetDeadline")
	redirect("(*github.com/gorilla/websocket.Conn).WriteControl", "WSWriteControl")
	redirect("(*github.com/gorilla/websocket.Conn).WriteJSON", "WSWriteJSON")
	redirect("(*github.com/gorilla/websocket.Conn).NextReader", "WSNextReader")
	redirect("(*github.com/gorilla/websocket.Conn).ReadMessage", "WSReadMessage")
	redirect("(*github.com/gorilla/websocket.Conn).WriteMessage", "WSWriteMessage")
	redirect("(*github.com/gorilla/websocket.Conn).NextWriter", "WSNextWriter")
	redirect("(*github.com/gorilla/websocket.Conn).SetReadLimit", "WSSetReadLimit")
	redirect("(*github.com/gorilla/websocket.Conn).Close", "WSClose")
	redirect("(*net/http.Client).Do", "ClientDo")
	redirect("net.Listen", "NetListen")
	for _, m := range []string{"Serve", "ServeTLS", "ListenAndServe", "ListenAndServeTLS", "Close", "Shutdown"} {
		redirect("(*net/http.Server)."+m, "Server"+m)
	}
	for _, f := range []string{"Certificate", "CleanCertificates", "FreeAddr", "Fetch"} {
		redirect(harnessModule+"/nx."+f, f)
	}
	redirect("(github.com/golang-jwt/jwt.StandardClaims).Valid", "ClaimsValid")
	redirect("(*encoding/base64.Encoding).EncodeToString", "B64EncodeToString")
	redirect("(*encoding/base64.Encoding).DecodeString", "B64DecodeString")
	redirect("(*github.com/golang-jwt/jwt.SigningMethodHMAC).Sign", "HMACSign")
	redirect("(*github.com/golang-jwt/jwt.SigningMethodHMAC).Verify", "HMACVerify")
}

// bigText is what a modelled big.Int keeps in its abs field: the canonical
// decimal text.
type bigText struct{ s Value }

func initBigIntr() {
	reg(modelPkg+".bigSet", func(fr *Frame, args []Value) Value {
		c := fr.deref(args[0])
		st := copyVal(*c).(Struct)
		*fr.p.fieldPtr(st, fr.p.w.prog.typ("math/big", "Int"), "abs") = bigText{args[1]}
		*c = st
		return nil
	})
	reg(modelPkg+".bigText", func(fr *Frame, args []Value) Value {
		st := (*fr.deref(args[0])).(Struct)
		switch x := fr.p.fieldOf(st, fr.p.w.prog.typ("math/big", "Int"), "abs").(type) {
		case bigText:
			return x.s
		case []Value:
			if len(x) == 0 {
				return "0"
			}
		}
		panic(unsupported{"big.Int not made by the model"})
	})
	for _, m := range []string{"SetString", "String", "SetInt64", "SetUint64", "Set", "Cmp", "Sign", "Text", "IsInt64", "IsUint64", "Int64", "Uint64", "Neg", "Abs", "Append", "MarshalText", "MarshalJSON", "UnmarshalText", "UnmarshalJSON"} {
		redirect("(*math/big.Int)."+m, "Big"+m)
	}
	redirect("math/big.NewInt", "BigNewInt")
}
