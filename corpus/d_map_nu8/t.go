package d_map_nu8

//json:json
type D map[string]NU8

type NU8 uint8
