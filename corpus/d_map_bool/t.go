package d_map_bool

//json:json
type D map[string]bool
