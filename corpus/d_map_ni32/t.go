package d_map_ni32

//json:json
type D map[string]NI32

type NI32 int32
