package hz

import (
	"fmt"
	"sort"

	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifrt/vrt"
)

// Served is one content of one resource the control plane had.
type Served struct {
	Stamp string // "": none
	Step  int    // since when
}

// Server makes a control plane answer requests from a current content.
type Server struct {
	CP   *CP
	Cur  map[xdsresource.ResourceType]map[string]string // raw resource name -> stamp
	Hist map[xdsresource.ResourceType]map[string][]Served
	seen map[*Stream]map[xdsresource.ResourceType]string
	// Table answers requests for the name table.
	Table map[string][]string
	// Build overrides Stamped.
	Build func(t xdsresource.ResourceType, name, stamp string) *anypb.Any
	// Serial makes the stamps of every response its own: s<number of the response>.
	Serial bool
	Sent   []*Resp
}

// Resp is a response of a server.
type Resp struct {
	St    *Stream
	K     int // how many the stream carried before
	T     xdsresource.ResourceType
	Names []string
	Stamp string // of all its resources, if Serial
}

// Received is when the client received it.
func (r *Resp) Received() (Moment, bool) {
	if r.K < len(r.St.Ends) {
		return r.St.Ends[r.K], true
	}
	return Moment{}, false
}

// Has reports whether it carries a name.
func (r *Resp) Has(n string) bool {
	for _, x := range r.Names {
		if x == n {
			return true
		}
	}
	return false
}

// Serve attaches a server to a control plane.
func Serve(cp *CP) *Server {
	s := &Server{CP: cp, Cur: map[xdsresource.ResourceType]map[string]string{}, Hist: map[xdsresource.ResourceType]map[string][]Served{},
		seen: map[*Stream]map[xdsresource.ResourceType]string{}, Build: Stamped}
	// what was requested so far counts as answered
	for _, st := range cp.Streams {
		for _, r := range st.Reqs {
			s.mark(st, r)
		}
	}
	cp.OnReq = func(st *Stream, r *Req) {
		if s.mark(st, r) {
			s.answer(st, r.Type, r.Names)
		}
	}
	return s
}

func (s *Server) mark(st *Stream, r *Req) bool {
	if s.seen[st] == nil {
		s.seen[st] = map[xdsresource.ResourceType]string{}
	}
	prev, any := s.seen[st][r.Type]
	s.seen[st][r.Type] = r.Set
	return !any || prev != r.Set
}

// Set changes a content without telling anyone; an empty stamp removes it.
func (s *Server) Set(t xdsresource.ResourceType, name, stamp string) {
	if s.Cur[t] == nil {
		s.Cur[t] = map[string]string{}
		s.Hist[t] = map[string][]Served{}
	}
	if stamp == "" {
		delete(s.Cur[t], name)
	} else {
		s.Cur[t][name] = stamp
	}
	s.Hist[t][name] = append(s.Hist[t][name], Served{stamp, vrt.Steps()})
}

// Update is Set, told to whoever has subscribed.
func (s *Server) Update(t xdsresource.ResourceType, name, stamp string) {
	s.Set(t, name, stamp)
	st := s.CP.Live()
	if st == nil {
		return
	}
	r := st.Last(t)
	if r == nil {
		return
	}
	if t == LDS || t == CDS {
		s.answer(st, t, r.Names)
		return
	}
	for _, n := range r.Names {
		if n == name {
			s.answer(st, t, []string{name})
		}
	}
}

// answer sends the content: all listeners, or those of the names.
func (s *Server) answer(st *Stream, t xdsresource.ResourceType, names []string) {
	if t == NDS {
		st.Push(URL(t), []*anypb.Any{NameTable(s.Table)})
		return
	}
	if t == LDS {
		names = nil
		for n := range s.Cur[t] {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	var rs []*anypb.Any
	r := &Resp{St: st, K: st.Pushed, T: t}
	if s.Serial {
		r.Stamp = fmt.Sprintf("s%d", len(s.Sent)+1)
	}
	for _, n := range names {
		if v, ok := s.Cur[t][n]; ok {
			if s.Serial {
				v = r.Stamp
			}
			rs = append(rs, s.Build(t, n, v))
			r.Names = append(r.Names, n)
		}
	}
	s.Sent = append(s.Sent, r)
	st.Push(URL(t), rs)
}

// Table is a name table response.
func Table(t map[string][]string) []*anypb.Any { return []*anypb.Any{NameTable(t)} }
