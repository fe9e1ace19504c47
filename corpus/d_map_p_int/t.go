package d_map_p_int

//json:json
type D map[string]*int
