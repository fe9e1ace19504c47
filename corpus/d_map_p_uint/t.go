package d_map_p_uint

//json:json
type D map[string]*uint
