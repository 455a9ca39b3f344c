----------------------------- MODULE IdnaTable -----------------------------
(* Generated by tools/mkidna.py.  <<label, A-label, U-label>>; labels in      *)
(* lower-case ASCII; an empty A-label means: not allowed.                     *)
IdnaRows == {
  <<<<228, 184, 173, 229, 155, 189>>, <<120, 110, 45, 45, 102, 105, 113, 115, 56, 115>>, <<228, 184, 173, 229, 155, 189>>>>,
  <<<<120, 110, 45, 45, 102, 105, 113, 115, 56, 115>>, <<120, 110, 45, 45, 102, 105, 113, 115, 56, 115>>, <<228, 184, 173, 229, 155, 189>>>>,
  <<<<228, 190, 139, 229, 173, 144>>, <<120, 110, 45, 45, 102, 115, 113, 117, 48, 48, 97>>, <<228, 190, 139, 229, 173, 144>>>>,
  <<<<120, 110, 45, 45, 102, 115, 113, 117, 48, 48, 97>>, <<120, 110, 45, 45, 102, 115, 113, 117, 48, 48, 97>>, <<228, 190, 139, 229, 173, 144>>>>,
  <<<<229, 129, 135, 228, 190, 139, 229, 173, 144>>, <<120, 110, 45, 45, 102, 115, 113, 115, 114, 110, 55, 121>>, <<229, 129, 135, 228, 190, 139, 229, 173, 144>>>>,
  <<<<120, 110, 45, 45, 102, 115, 113, 115, 114, 110, 55, 121>>, <<120, 110, 45, 45, 102, 115, 113, 115, 114, 110, 55, 121>>, <<229, 129, 135, 228, 190, 139, 229, 173, 144>>>>,
  <<<<229, 173, 144>>, <<120, 110, 45, 45, 105, 56, 115>>, <<229, 173, 144>>>>,
  <<<<120, 110, 45, 45, 105, 56, 115>>, <<120, 110, 45, 45, 105, 56, 115>>, <<229, 173, 144>>>>,
  <<<<195, 164>>, <<120, 110, 45, 45, 52, 99, 97>>, <<195, 164>>>>,
  <<<<120, 110, 45, 45, 52, 99, 97>>, <<120, 110, 45, 45, 52, 99, 97>>, <<195, 164>>>>,
  <<<<98, 195, 188, 99, 104, 101, 114>>, <<120, 110, 45, 45, 98, 99, 104, 101, 114, 45, 107, 118, 97>>, <<98, 195, 188, 99, 104, 101, 114>>>>,
  <<<<120, 110, 45, 45, 98, 99, 104, 101, 114, 45, 107, 118, 97>>, <<120, 110, 45, 45, 98, 99, 104, 101, 114, 45, 107, 118, 97>>, <<98, 195, 188, 99, 104, 101, 114>>>>,
  <<<<115, 116, 114, 97, 195, 159, 101>>, <<120, 110, 45, 45, 115, 116, 114, 97, 101, 45, 111, 113, 97>>, <<115, 116, 114, 97, 195, 159, 101>>>>,
  <<<<120, 110, 45, 45, 115, 116, 114, 97, 101, 45, 111, 113, 97>>, <<120, 110, 45, 45, 115, 116, 114, 97, 101, 45, 111, 113, 97>>, <<115, 116, 114, 97, 195, 159, 101>>>>,
  <<<<226, 152, 149>>, <<120, 110, 45, 45, 53, 51, 104>>, <<226, 152, 149>>>>,
  <<<<120, 110, 45, 45, 53, 51, 104>>, <<120, 110, 45, 45, 53, 51, 104>>, <<226, 152, 149>>>>,
  <<<<240, 159, 142, 134>>, <<120, 110, 45, 45, 57, 106, 56, 104>>, <<240, 159, 142, 134>>>>,
  <<<<120, 110, 45, 45, 57, 106, 56, 104>>, <<120, 110, 45, 45, 57, 106, 56, 104>>, <<240, 159, 142, 134>>>>,
  <<<<208, 191, 209, 128, 208, 184, 208, 188, 208, 181, 209, 128>>, <<120, 110, 45, 45, 101, 49, 97, 102, 109, 107, 102, 100>>, <<208, 191, 209, 128, 208, 184, 208, 188, 208, 181, 209, 128>>>>,
  <<<<120, 110, 45, 45, 101, 49, 97, 102, 109, 107, 102, 100>>, <<120, 110, 45, 45, 101, 49, 97, 102, 109, 107, 102, 100>>, <<208, 191, 209, 128, 208, 184, 208, 188, 208, 181, 209, 128>>>>,
  <<<<206, 181, 206, 187, 206, 187, 206, 172, 207, 130>>, <<120, 110, 45, 45, 104, 120, 97, 114, 115, 97, 48, 98>>, <<206, 181, 206, 187, 206, 187, 206, 172, 207, 130>>>>,
  <<<<120, 110, 45, 45, 104, 120, 97, 114, 115, 97, 48, 98>>, <<120, 110, 45, 45, 104, 120, 97, 114, 115, 97, 48, 98>>, <<206, 181, 206, 187, 206, 187, 206, 172, 207, 130>>>>,
  <<<<230, 151, 165, 230, 156, 172, 232, 170, 158>>, <<120, 110, 45, 45, 119, 103, 118, 55, 49, 97, 49, 49, 57, 101>>, <<230, 151, 165, 230, 156, 172, 232, 170, 158>>>>,
  <<<<120, 110, 45, 45, 119, 103, 118, 55, 49, 97, 49, 49, 57, 101>>, <<120, 110, 45, 45, 119, 103, 118, 55, 49, 97, 49, 49, 57, 101>>, <<230, 151, 165, 230, 156, 172, 232, 170, 158>>>>,
  <<<<195, 169>>, <<120, 110, 45, 45, 57, 99, 97>>, <<195, 169>>>>,
  <<<<120, 110, 45, 45, 57, 99, 97>>, <<120, 110, 45, 45, 57, 99, 97>>, <<195, 169>>>>,
  <<<<195, 177, 97, 110, 100, 195, 186>>, <<120, 110, 45, 45, 97, 110, 100, 45, 54, 109, 97, 50, 99>>, <<195, 177, 97, 110, 100, 195, 186>>>>,
  <<<<120, 110, 45, 45, 97, 110, 100, 45, 54, 109, 97, 50, 99>>, <<120, 110, 45, 45, 97, 110, 100, 45, 54, 109, 97, 50, 99>>, <<195, 177, 97, 110, 100, 195, 186>>>>,
  <<<<228, 184, 173, 229, 155, 189, 45, 99, 110>>, <<120, 110, 45, 45, 45, 99, 110, 45, 117, 54, 56, 100, 121, 54, 49, 98>>, <<228, 184, 173, 229, 155, 189, 45, 99, 110>>>>,
  <<<<120, 110, 45, 45, 45, 99, 110, 45, 117, 54, 56, 100, 121, 54, 49, 98>>, <<120, 110, 45, 45, 45, 99, 110, 45, 117, 54, 56, 100, 121, 54, 49, 98>>, <<228, 184, 173, 229, 155, 189, 45, 99, 110>>>>,
  <<<<97, 228, 184, 173>>, <<120, 110, 45, 45, 97, 45, 108, 113, 54, 97>>, <<97, 228, 184, 173>>>>,
  <<<<120, 110, 45, 45, 97, 45, 108, 113, 54, 97>>, <<120, 110, 45, 45, 97, 45, 108, 113, 54, 97>>, <<97, 228, 184, 173>>>>,
  <<<<228, 184, 173, 49>>, <<120, 110, 45, 45, 49, 45, 107, 113, 54, 97>>, <<228, 184, 173, 49>>>>,
  <<<<120, 110, 45, 45, 49, 45, 107, 113, 54, 97>>, <<120, 110, 45, 45, 49, 45, 107, 113, 54, 97>>, <<228, 184, 173, 49>>>>,
  <<<<228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173>>, <<120, 110, 45, 45, 102, 105, 113, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97>>, <<228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173>>>>,
  <<<<120, 110, 45, 45, 102, 105, 113, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97>>, <<120, 110, 45, 45, 102, 105, 113, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97>>, <<228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173, 228, 184, 173>>>>,
  <<<<195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164>>, <<120, 110, 45, 45, 52, 99, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97>>, <<195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164>>>>,
  <<<<120, 110, 45, 45, 52, 99, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97>>, <<120, 110, 45, 45, 52, 99, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97>>, <<195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164>>>>,
  <<<<195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164>>, <<120, 110, 45, 45, 52, 99, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97>>, <<195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164>>>>,
  <<<<120, 110, 45, 45, 52, 99, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97>>, <<120, 110, 45, 45, 52, 99, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97>>, <<195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164, 195, 164>>>>,
  <<<<195, 132>>, <<120, 110, 45, 45, 52, 99, 97>>, <<195, 164>>>>,
  <<<<98, 195, 156, 99, 104, 101, 114>>, <<120, 110, 45, 45, 98, 99, 104, 101, 114, 45, 107, 118, 97>>, <<98, 195, 188, 99, 104, 101, 114>>>>,
  <<<<208, 159, 208, 160, 208, 152, 208, 156, 208, 149, 208, 160>>, <<120, 110, 45, 45, 101, 49, 97, 102, 109, 107, 102, 100>>, <<208, 191, 209, 128, 208, 184, 208, 188, 208, 181, 209, 128>>>>,
  <<<<195, 137>>, <<120, 110, 45, 45, 57, 99, 97>>, <<195, 169>>>>,
  <<<<195, 177, 97, 110, 100, 195, 154>>, <<120, 110, 45, 45, 97, 110, 100, 45, 54, 109, 97, 50, 99>>, <<195, 177, 97, 110, 100, 195, 186>>>>,
  <<<<239, 189, 129, 228, 184, 173>>, <<120, 110, 45, 45, 97, 45, 108, 113, 54, 97>>, <<97, 228, 184, 173>>>>,
  <<<<204, 129, 97>>, <<>>, <<>>>>,
  <<<<97, 194, 128, 98>>, <<>>, <<>>>>,
  <<<<239, 191, 189>>, <<>>, <<>>>>,
  <<<<226, 128, 168>>, <<>>, <<>>>>,
  <<<<228, 184, 173, 194, 160>>, <<>>, <<>>>>
}
=============================================================================
