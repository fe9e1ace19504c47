package d_map_tstr

//json:json
type D map[string]TStr

//json:json
type TStr string
