package d_map_nf32

//json:json
type D map[string]NF32

type NF32 float32
