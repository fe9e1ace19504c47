package wide

//json:strict,decode
type W65 struct {
	F0 string `json:"f0"`
	F1 string `json:"f1"`
	F2 string `json:"f2"`
	F3 string `json:"f3"`
	F4 string `json:"f4"`
	F5 string `json:"f5"`
	F6 string `json:"f6"`
	F7 string `json:"f7"`
	F8 string `json:"f8"`
	F9 string `json:"f9"`
	F10 string `json:"f10"`
	F11 string `json:"f11"`
	F12 string `json:"f12"`
	F13 string `json:"f13"`
	F14 string `json:"f14"`
	F15 string `json:"f15"`
	F16 string `json:"f16"`
	F17 string `json:"f17"`
	F18 string `json:"f18"`
	F19 string `json:"f19"`
	F20 string `json:"f20"`
	F21 string `json:"f21"`
	F22 string `json:"f22"`
	F23 string `json:"f23"`
	F24 string `json:"f24"`
	F25 string `json:"f25"`
	F26 string `json:"f26"`
	F27 string `json:"f27"`
	F28 string `json:"f28"`
	F29 string `json:"f29"`
	F30 string `json:"f30"`
	F31 string `json:"f31"`
	F32 string `json:"f32"`
	F33 string `json:"f33"`
	F34 string `json:"f34"`
	F35 string `json:"f35"`
	F36 string `json:"f36"`
	F37 string `json:"f37"`
	F38 string `json:"f38"`
	F39 string `json:"f39"`
	F40 string `json:"f40"`
	F41 string `json:"f41"`
	F42 string `json:"f42"`
	F43 string `json:"f43"`
	F44 string `json:"f44"`
	F45 string `json:"f45"`
	F46 string `json:"f46"`
	F47 string `json:"f47"`
	F48 string `json:"f48"`
	F49 string `json:"f49"`
	F50 string `json:"f50"`
	F51 string `json:"f51"`
	F52 string `json:"f52"`
	F53 string `json:"f53"`
	F54 string `json:"f54"`
	F55 string `json:"f55"`
	F56 string `json:"f56"`
	F57 string `json:"f57"`
	F58 string `json:"f58"`
	F59 string `json:"f59"`
	F60 string `json:"f60"`
	F61 string `json:"f61"`
	F62 string `json:"f62"`
	F63 string `json:"f63"`
	F64 string `json:"f64"`
}

//json:encode
type E66 struct {
	F0 string `json:"f0"`
	F1 bool `json:"f1"`
	F2 bool `json:"f2"`
	F3 bool `json:"f3"`
	F4 bool `json:"f4"`
	F5 string `json:"f5"`
	F6 bool `json:"f6"`
	F7 bool `json:"f7"`
	F8 bool `json:"f8"`
	F9 bool `json:"f9"`
	F10 string `json:"f10"`
	F11 bool `json:"f11"`
	F12 bool `json:"f12"`
	F13 bool `json:"f13"`
	F14 bool `json:"f14"`
	F15 string `json:"f15"`
	F16 bool `json:"f16"`
	F17 bool `json:"f17"`
	F18 bool `json:"f18"`
	F19 bool `json:"f19"`
	F20 string `json:"f20"`
	F21 bool `json:"f21"`
	F22 bool `json:"f22"`
	F23 bool `json:"f23"`
	F24 bool `json:"f24"`
	F25 string `json:"f25"`
	F26 bool `json:"f26"`
	F27 bool `json:"f27"`
	F28 bool `json:"f28"`
	F29 bool `json:"f29"`
	F30 string `json:"f30"`
	F31 bool `json:"f31"`
	F32 bool `json:"f32"`
	F33 bool `json:"f33"`
	F34 bool `json:"f34"`
	F35 string `json:"f35"`
	F36 bool `json:"f36"`
	F37 bool `json:"f37"`
	F38 bool `json:"f38"`
	F39 bool `json:"f39"`
	F40 string `json:"f40"`
	F41 bool `json:"f41"`
	F42 bool `json:"f42"`
	F43 bool `json:"f43"`
	F44 bool `json:"f44"`
	F45 string `json:"f45"`
	F46 bool `json:"f46"`
	F47 bool `json:"f47"`
	F48 bool `json:"f48"`
	F49 bool `json:"f49"`
	F50 string `json:"f50"`
	F51 bool `json:"f51"`
	F52 bool `json:"f52"`
	F53 bool `json:"f53"`
	F54 bool `json:"f54"`
	F55 string `json:"f55"`
	F56 bool `json:"f56"`
	F57 bool `json:"f57"`
	F58 bool `json:"f58"`
	F59 bool `json:"f59"`
	F60 string `json:"f60"`
	F61 bool `json:"f61"`
	F62 bool `json:"f62"`
	F63 bool `json:"f63"`
	F64 bool `json:"f64"`
	F65 string `json:"f65"`
}

//json:encode
type E101 struct {
	F0 string `json:"f0"`
	F1 bool `json:"f1"`
	F2 bool `json:"f2"`
	F3 bool `json:"f3"`
	F4 bool `json:"f4"`
	F5 string `json:"f5"`
	F6 bool `json:"f6"`
	F7 bool `json:"f7"`
	F8 bool `json:"f8"`
	F9 bool `json:"f9"`
	F10 string `json:"f10"`
	F11 bool `json:"f11"`
	F12 bool `json:"f12"`
	F13 bool `json:"f13"`
	F14 bool `json:"f14"`
	F15 string `json:"f15"`
	F16 bool `json:"f16"`
	F17 bool `json:"f17"`
	F18 bool `json:"f18"`
	F19 bool `json:"f19"`
	F20 string `json:"f20"`
	F21 bool `json:"f21"`
	F22 bool `json:"f22"`
	F23 bool `json:"f23"`
	F24 bool `json:"f24"`
	F25 string `json:"f25"`
	F26 bool `json:"f26"`
	F27 bool `json:"f27"`
	F28 bool `json:"f28"`
	F29 bool `json:"f29"`
	F30 string `json:"f30"`
	F31 bool `json:"f31"`
	F32 bool `json:"f32"`
	F33 bool `json:"f33"`
	F34 bool `json:"f34"`
	F35 string `json:"f35"`
	F36 bool `json:"f36"`
	F37 bool `json:"f37"`
	F38 bool `json:"f38"`
	F39 bool `json:"f39"`
	F40 string `json:"f40"`
	F41 bool `json:"f41"`
	F42 bool `json:"f42"`
	F43 bool `json:"f43"`
	F44 bool `json:"f44"`
	F45 string `json:"f45"`
	F46 bool `json:"f46"`
	F47 bool `json:"f47"`
	F48 bool `json:"f48"`
	F49 bool `json:"f49"`
	F50 string `json:"f50"`
	F51 bool `json:"f51"`
	F52 bool `json:"f52"`
	F53 bool `json:"f53"`
	F54 bool `json:"f54"`
	F55 string `json:"f55"`
	F56 bool `json:"f56"`
	F57 bool `json:"f57"`
	F58 bool `json:"f58"`
	F59 bool `json:"f59"`
	F60 string `json:"f60"`
	F61 bool `json:"f61"`
	F62 bool `json:"f62"`
	F63 bool `json:"f63"`
	F64 bool `json:"f64"`
	F65 string `json:"f65"`
	F66 bool `json:"f66"`
	F67 bool `json:"f67"`
	F68 bool `json:"f68"`
	F69 bool `json:"f69"`
	F70 string `json:"f70"`
	F71 bool `json:"f71"`
	F72 bool `json:"f72"`
	F73 bool `json:"f73"`
	F74 bool `json:"f74"`
	F75 string `json:"f75"`
	F76 bool `json:"f76"`
	F77 bool `json:"f77"`
	F78 bool `json:"f78"`
	F79 bool `json:"f79"`
	F80 string `json:"f80"`
	F81 bool `json:"f81"`
	F82 bool `json:"f82"`
	F83 bool `json:"f83"`
	F84 bool `json:"f84"`
	F85 string `json:"f85"`
	F86 bool `json:"f86"`
	F87 bool `json:"f87"`
	F88 bool `json:"f88"`
	F89 bool `json:"f89"`
	F90 string `json:"f90"`
	F91 bool `json:"f91"`
	F92 bool `json:"f92"`
	F93 bool `json:"f93"`
	F94 bool `json:"f94"`
	F95 string `json:"f95"`
	F96 bool `json:"f96"`
	F97 bool `json:"f97"`
	F98 bool `json:"f98"`
	F99 bool `json:"f99"`
	F100 string `json:"f100"`
}

