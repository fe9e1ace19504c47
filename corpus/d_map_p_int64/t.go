package d_map_p_int64

//json:json
type D map[string]*int64
