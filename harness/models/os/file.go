package os

// model
// Files by path; a directory has no content.
var zzFiles = map[string]*zzFile{}

type zzFile struct {
	dir bool
	b   []byte
}

var zzTemp = 0

func zz_model_ReadFile(name string) ([]byte, error) {
	f := zzFiles[name]
	if f == nil {
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	if f.dir {
		return nil, &PathError{Op: "read", Path: name, Err: ErrInvalid}
	}
	return append([]byte(nil), f.b...), nil
}

func zz_model_WriteFile(name string, data []byte, perm FileMode) error {
	zzFiles[name] = &zzFile{b: append([]byte(nil), data...)}
	return nil
}

func zz_model_Mkdir(name string, perm FileMode) error {
	zzFiles[name] = &zzFile{dir: true}
	return nil
}

func zz_model_MkdirTemp(dir, pattern string) (string, error) {
	zzTemp++
	name := "/tmp/" + pattern + string(rune('0'+zzTemp))
	zzFiles[name] = &zzFile{dir: true}
	return name, nil
}

func zz_model_Remove(name string) error {
	if zzFiles[name] == nil {
		return &PathError{Op: "remove", Path: name, Err: ErrNotExist}
	}
	delete(zzFiles, name)
	return nil
}
