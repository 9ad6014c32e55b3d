#pragma once
namespace lapackcount { extern long R,C; }
