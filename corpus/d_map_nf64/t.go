package d_map_nf64

//json:json
type D map[string]NF64

type NF64 float64
