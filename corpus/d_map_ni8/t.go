package d_map_ni8

//json:json
type D map[string]NI8

type NI8 int8
