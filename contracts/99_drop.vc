@@ drop use uint::construct_uint
@@ drop use num_traits::ToPrimitive
@@ drop use num_traits::FromPrimitive
@@ drop const types::work::Work::MAX
