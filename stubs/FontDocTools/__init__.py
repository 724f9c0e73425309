"""A stand-in for the parts of FontDocTools that PathLib.Color and PathLib.ContourPlotter build on.
FontDocTools itself isn't available here. It records what it is told and draws nothing."""
