package d_map_string

//json:json
type D map[string]string
