package verifload

import (
	_ "github.com/Breeze0806/gobinlog"
)
