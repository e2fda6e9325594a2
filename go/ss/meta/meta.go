// Package meta describes what the schemas mean that the generated services
// are made from. The harness's reference model works on this description, not
// on SQL text or generated code.
package meta

import "vsim/schema"

// Meta is everything one build of the simulator contains.
type Meta struct {
	Seed    uint64    `json:"seed"`
	Schemas []*Schema `json:"schemas"`
}

// Schema is one generated package (with an optional base package).
type Schema struct {
	Pkg     string            `json:"pkg"`
	Files   map[string]string `json:"files"`
	Enums   []*Enum           `json:"enums"`
	Tables  []*Table          `json:"tables"`
	Reqs    []*Req            `json:"reqs"`
	Datas   []*Data           `json:"datas"`
	Servers []*Server         `json:"servers"`
}

type Enum struct {
	Name  string `json:"name"`
	Items []int  `json:"items"`
}

// Cache is the [cache] tag of a type.
type Cache struct {
	Min int `json:"min"` // effective bounds in seconds
	Max int `json:"max"`
}

// Ops says which operations a type has and in which mode.
type Ops struct {
	Get     string `json:"get,omitempty"`
	List    string `json:"list,omitempty"`
	Map     string `json:"map,omitempty"`     // self or parent
	MapKey  string `json:"map_key,omitempty"` // field
	Count   bool   `json:"count,omitempty"`
	Insert  string `json:"insert,omitempty"`
	Inserts string `json:"inserts,omitempty"`
	Update  string `json:"update,omitempty"`
	Set     string `json:"set,omitempty"`
	Del     bool   `json:"del,omitempty"`
	Remove  bool   `json:"rm,omitempty"`
}

// Writes says whether the type has operations that change data.
func (o *Ops) Writes() bool {
	return o.Insert != "" || o.Inserts != "" || o.Update != "" || o.Set != "" || o.Del || o.Remove
}

// Table is a data type that is a table.
type Table struct {
	Type  string `json:"type"` // Go and IDL name
	DB    string `json:"db"`   // full name in the database
	Soft  bool   `json:"soft"` // deletes only mark
	Cols  []*Col `json:"cols"`
	Key   string `json:"key"` // column
	Ops   Ops    `json:"ops"`
	Cache *Cache `json:"cache,omitempty"`
}

// Col is a column and the field it belongs to.
type Col struct {
	Field string       `json:"field"` // IDL name
	Go    string       `json:"go"`    // Go name
	Name  string       `json:"name"`  // column name
	Type  *schema.Type `json:"type"`
	JSON  bool         `json:"json,omitempty"`
	Set   *Set         `json:"set,omitempty"` // set tag of the table's own field
	Force bool         `json:"force,omitempty"`
}

// Class is the kind of values a column holds.
func (c *Col) Class() string { return ClassOf(c.Type, c.JSON) }

// ClassOf maps a type to int, uint, string, bool, date, decimal, double, float or json.
func ClassOf(t *schema.Type, js bool) string {
	if js {
		return "json"
	}
	if t.Kind == "array" || t.Kind == "map" || t.Kind == "data" {
		return "json"
	}
	if t.Kind == "enum" {
		return "int"
	}
	switch t.Name {
	case "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64":
		return "int"
	}
	return t.Name
}

// Set is a set expression: column = Col + ?, or = ?, or = Col + Const.
type Set struct {
	Kind  string `json:"kind"` // param, add, inc, addother
	Const int    `json:"const,omitempty"`
	Other string `json:"other,omitempty"` // field whose value is used
}

// Cond is one condition a field stands for.
type Cond struct {
	Kind  string   `json:"kind"`            // eq ne lt le gt ge like in isnull or raweq range
	Cols  []string `json:"cols,omitempty"`  // columns, alternatives for "or"
	Other string   `json:"other,omitempty"` // field holding the column's name (raweq) or the upper bound (range)
}

// RField is a field of a request type.
type RField struct {
	Field string       `json:"field"`
	Go    string       `json:"go"`
	Type  *schema.Type `json:"type"`
	Conds []Cond       `json:"conds,omitempty"`
	Set   *Set         `json:"set,omitempty"`
	Col   string       `json:"col,omitempty"`   // column for set, own selection and group
	Force bool         `json:"force,omitempty"` // set even if nil
	Role  string       `json:"role,omitempty"`  // limit, offset, order, aux
	Order []string     `json:"order,omitempty"` // columns, the last one gets the direction
	Group bool         `json:"group,omitempty"`
	Agg   string       `json:"agg,omitempty"`  // max, min, count, sum: over the group's rows
	Zero  bool         `json:"zero,omitempty"` // reads 0 instead of null
}

// Req is a data type that operates on another type's table.
type Req struct {
	Type   string    `json:"type"`
	Table  string    `json:"table"`
	Fields []*RField `json:"fields"`
	Ops    Ops       `json:"ops"`
	Cache  *Cache    `json:"cache,omitempty"`
}

// Data is a plain data type used by services.
type Data struct {
	Type   string   `json:"type"`
	Pkg    string   `json:"pkg"`
	Fields []*DF    `json:"fields"` // own and inherited
	Ext    []string `json:"ext,omitempty"`
	Verify bool     `json:"verify,omitempty"`
}

// DF is a field of a Data.
type DF struct {
	Field string       `json:"field"`
	Go    string       `json:"go"`
	Type  *schema.Type `json:"type"`
	From  string       `json:"from,omitempty"` // ancestor that declares it
	Rules []Rule       `json:"rules,omitempty"`
}

// Rule is a format an enum item gives a field.
type Rule struct {
	Min  *float64 `json:"min,omitempty"` // of dates in milliseconds
	Max  *float64 `json:"max,omitempty"`
	Reg  string   `json:"reg,omitempty"`
	Null bool     `json:"null,omitempty"`
	Code int      `json:"code"`
}

// Server is a service.
type Server struct {
	Type    string    `json:"type"`
	Pkg     string    `json:"pkg"`
	Name    string    `json:"name"` // on the wire
	Ext     []string  `json:"ext,omitempty"`
	Methods []*Method `json:"methods"` // own and inherited
}

// Method is a method of a service.
type Method struct {
	Name   string            `json:"name"`
	Go     string            `json:"go"`
	Wire   string            `json:"wire"`
	Param  string            `json:"param"`
	Result string            `json:"result,omitempty"` // empty: void
	Tags   map[string]string `json:"tags,omitempty"`
	From   string            `json:"from"`           // service that declares it
	Bind   *Bind             `json:"bind,omitempty"` // forwarded to
}

// Bind says where a stand-in forwards a method to.
type Bind struct {
	Server string `json:"server"`
	Method string `json:"method"`
	Param  string `json:"param"`
	Result string `json:"result,omitempty"`
	Verify bool   `json:"verify,omitempty"`
}

// Table returns the table of a type name.
func (s *Schema) Table(n string) *Table {
	for _, t := range s.Tables {
		if t.Type == n {
			return t
		}
	}
	return nil
}

// Req returns the request of a type name.
func (s *Schema) Req(n string) *Req {
	for _, t := range s.Reqs {
		if t.Type == n {
			return t
		}
	}
	return nil
}

// Data returns the plain data of a type name.
func (s *Schema) Data(n string) *Data {
	for _, t := range s.Datas {
		if t.Type == n {
			return t
		}
	}
	return nil
}

// Server returns the service of a type name.
func (s *Schema) Server(n string) *Server {
	for _, t := range s.Servers {
		if t.Type == n {
			return t
		}
	}
	return nil
}

// Col returns a column by its column name.
func (t *Table) Col(n string) *Col {
	for _, c := range t.Cols {
		if c.Name == n {
			return c
		}
	}
	return nil
}
