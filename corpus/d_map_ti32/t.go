package d_map_ti32

//json:json
type D map[string]TI32

//json:json
type TI32 int32
