package d_map_nint

//json:json
type D map[string]NInt

type NInt int
