package d_map_nstr

//json:json
type D map[string]NStr

type NStr string
