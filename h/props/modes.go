package props

// modes follows which keys the editor takes as commands and which it takes as
// data of the command before.
type modes struct {
	quoted, search bool
}

type keyUse int

const (
	useCommand keyUse = iota // looked up in the key bindings
	useLiteral               // the key after quoted insert
	useSearch                // a key inside the search
	useAccept                // Enter in the search
	useCancel                // leaves the search
)

func (m *modes) use(key string) keyUse {
	switch {
	case m.quoted:
		m.quoted = false
		return useLiteral
	case m.search:
		switch key {
		case kEnter:
			m.search = false
			return useAccept
		case kC, kG, kEsc:
			m.search = false
			return useCancel
		}
		return useSearch
	case key == kV || key == kQ:
		m.quoted = true
	case key == kR:
		m.search = true
	}
	return useCommand
}
