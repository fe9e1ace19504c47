package wide

//json:strict
type W1 struct {
	F0 string `json:"f0"`
	F1 string `json:"f1"`
	F2 string `json:"f2"`
	F3 uint16 `json:"f3,omitempty"`
	F4 string `json:"f4"`
	F5 string `json:"f5"`
	F6 string `json:"f6"`
	F7 string `json:"f7"`
	F8 bool `json:"f8"`
	F9 string `json:"f9"`
	F10 string `json:"f10,omitempty"`
	F11 string `json:"f11"`
	F12 string `json:"f12"`
	F13 string `json:"f13"`
	F14 string `json:"f14"`
	F15 uint16 `json:"f15"`
	F16 float64 `json:"f16"`
	F17 *int `json:"f17,omitempty"`
	F18 string `json:"f18"`
	F19 string `json:"f19"`
	F20 string `json:"f20"`
	F21 string `json:"f21"`
	F22 string `json:"f22"`
	F23 string `json:"f23"`
	F24 string `json:"f24,omitempty"`
	F25 string `json:"f25"`
	F26 string `json:"f26"`
	F27 string `json:"f27"`
	F28 string `json:"f28"`
	F29 string `json:"f29"`
	F30 string `json:"f30"`
	F31 int `json:"f31,omitempty"`
	F32 bool `json:"f32"`
	F33 uint16 `json:"f33"`
	F34 string `json:"f34"`
	F35 string `json:"f35"`
	F36 string `json:"f36"`
	F37 string `json:"f37"`
	F38 string `json:"f38,omitempty"`
	F39 string `json:"f39"`
	F40 string `json:"f40"`
	F41 string `json:"f41"`
	F42 string `json:"f42"`
	F43 string `json:"f43"`
	F44 string `json:"f44"`
	F45 string `json:"f45,omitempty"`
	F46 string `json:"f46"`
	F47 string `json:"f47"`
}
