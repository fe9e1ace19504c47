package d_map_nu64

//json:json
type D map[string]NU64

type NU64 uint64
