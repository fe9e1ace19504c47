package d_map_p_bool

//json:json
type D map[string]*bool
