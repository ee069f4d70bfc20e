// Package sigar stands for the module of that name, which is not in the
// cache: the figures of the machine are what ZZMem says.
package sigar

type Mem struct {
	Total      uint64
	Used       uint64
	Free       uint64
	ActualFree uint64
	ActualUsed uint64
}

var ZZMem = Mem{Total: 1 << 35, Used: 1 << 33, Free: 1 << 34, ActualFree: 1 << 34, ActualUsed: 1 << 33}

func (m *Mem) Get() error {
	*m = ZZMem
	return nil
}
