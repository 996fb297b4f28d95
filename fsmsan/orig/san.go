package orig

import "os"

// SanFile, SanSpaceOffset and SanMappedSize let the sanitizing wrapper map
// the very same file pages a second time, at an address of its choosing.
func (fs *FileStorage) SanFile() *os.File { return fs.spaceMapper.File }

func (fs *FileStorage) SanMappedSize() int { return len(fs.spaceMapper.buffer) }

const SanSpaceOffset = int64(fileHeaderSize)
