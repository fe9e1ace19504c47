package d_map_p_uint64

//json:json
type D map[string]*uint64
