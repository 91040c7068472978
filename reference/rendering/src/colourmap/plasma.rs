/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

// From https://github.com/bids/colormap

pub const PLASMA_COLOURMAP: [[crate::Float; 3]; 256] = [
    [5.03832136e-02, 2.98028976e-02, 5.27974883e-01],
    [6.35363639e-02, 2.84259729e-02, 5.33123681e-01],
    [7.53531234e-02, 2.72063728e-02, 5.38007001e-01],
    [8.62217979e-02, 2.61253206e-02, 5.42657691e-01],
    [9.63786097e-02, 2.51650976e-02, 5.47103487e-01],
    [1.05979704e-01, 2.43092436e-02, 5.51367851e-01],
    [1.15123641e-01, 2.35562500e-02, 5.55467728e-01],
    [1.23902903e-01, 2.28781011e-02, 5.59423480e-01],
    [1.32380720e-01, 2.22583774e-02, 5.63250116e-01],
    [1.40603076e-01, 2.16866674e-02, 5.66959485e-01],
    [1.48606527e-01, 2.11535876e-02, 5.70561711e-01],
    [1.56420649e-01, 2.06507174e-02, 5.74065446e-01],
    [1.64069722e-01, 2.01705326e-02, 5.77478074e-01],
    [1.71573925e-01, 1.97063415e-02, 5.80805890e-01],
    [1.78950212e-01, 1.92522243e-02, 5.84054243e-01],
    [1.86212958e-01, 1.88029767e-02, 5.87227661e-01],
    [1.93374449e-01, 1.83540593e-02, 5.90329954e-01],
    [2.00445260e-01, 1.79015512e-02, 5.93364304e-01],
    [2.07434551e-01, 1.74421086e-02, 5.96333341e-01],
    [2.14350298e-01, 1.69729276e-02, 5.99239207e-01],
    [2.21196750e-01, 1.64970484e-02, 6.02083323e-01],
    [2.27982971e-01, 1.60071509e-02, 6.04867403e-01],
    [2.34714537e-01, 1.55015065e-02, 6.07592438e-01],
    [2.41396253e-01, 1.49791041e-02, 6.10259089e-01],
    [2.48032377e-01, 1.44393586e-02, 6.12867743e-01],
    [2.54626690e-01, 1.38820918e-02, 6.15418537e-01],
    [2.61182562e-01, 1.33075156e-02, 6.17911385e-01],
    [2.67702993e-01, 1.27162163e-02, 6.20345997e-01],
    [2.74190665e-01, 1.21091423e-02, 6.22721903e-01],
    [2.80647969e-01, 1.14875915e-02, 6.25038468e-01],
    [2.87076059e-01, 1.08554862e-02, 6.27294975e-01],
    [2.93477695e-01, 1.02128849e-02, 6.29490490e-01],
    [2.99855122e-01, 9.56079551e-03, 6.31623923e-01],
    [3.06209825e-01, 8.90185346e-03, 6.33694102e-01],
    [3.12543124e-01, 8.23900704e-03, 6.35699759e-01],
    [3.18856183e-01, 7.57551051e-03, 6.37639537e-01],
    [3.25150025e-01, 6.91491734e-03, 6.39512001e-01],
    [3.31425547e-01, 6.26107379e-03, 6.41315649e-01],
    [3.37683446e-01, 5.61830889e-03, 6.43048936e-01],
    [3.43924591e-01, 4.99053080e-03, 6.44710195e-01],
    [3.50149699e-01, 4.38202557e-03, 6.46297711e-01],
    [3.56359209e-01, 3.79781761e-03, 6.47809772e-01],
    [3.62553473e-01, 3.24319591e-03, 6.49244641e-01],
    [3.68732762e-01, 2.72370721e-03, 6.50600561e-01],
    [3.74897270e-01, 2.24514897e-03, 6.51875762e-01],
    [3.81047116e-01, 1.81356205e-03, 6.53068467e-01],
    [3.87182639e-01, 1.43446923e-03, 6.54176761e-01],
    [3.93304010e-01, 1.11388259e-03, 6.55198755e-01],
    [3.99410821e-01, 8.59420809e-04, 6.56132835e-01],
    [4.05502914e-01, 6.78091517e-04, 6.56977276e-01],
    [4.11580082e-01, 5.77101735e-04, 6.57730380e-01],
    [4.17642063e-01, 5.63847476e-04, 6.58390492e-01],
    [4.23688549e-01, 6.45902780e-04, 6.58956004e-01],
    [4.29719186e-01, 8.31008207e-04, 6.59425363e-01],
    [4.35733575e-01, 1.12705875e-03, 6.59797077e-01],
    [4.41732123e-01, 1.53984779e-03, 6.60069009e-01],
    [4.47713600e-01, 2.07954744e-03, 6.60240367e-01],
    [4.53677394e-01, 2.75470302e-03, 6.60309966e-01],
    [4.59622938e-01, 3.57374415e-03, 6.60276655e-01],
    [4.65549631e-01, 4.54518084e-03, 6.60139383e-01],
    [4.71456847e-01, 5.67758762e-03, 6.59897210e-01],
    [4.77343929e-01, 6.97958743e-03, 6.59549311e-01],
    [4.83210198e-01, 8.45983494e-03, 6.59094989e-01],
    [4.89054951e-01, 1.01269996e-02, 6.58533677e-01],
    [4.94877466e-01, 1.19897486e-02, 6.57864946e-01],
    [5.00677687e-01, 1.40550640e-02, 6.57087561e-01],
    [5.06454143e-01, 1.63333443e-02, 6.56202294e-01],
    [5.12206035e-01, 1.88332232e-02, 6.55209222e-01],
    [5.17932580e-01, 2.15631918e-02, 6.54108545e-01],
    [5.23632990e-01, 2.45316468e-02, 6.52900629e-01],
    [5.29306474e-01, 2.77468735e-02, 6.51586010e-01],
    [5.34952244e-01, 3.12170300e-02, 6.50165396e-01],
    [5.40569510e-01, 3.49501310e-02, 6.48639668e-01],
    [5.46157494e-01, 3.89540334e-02, 6.47009884e-01],
    [5.51715423e-01, 4.31364795e-02, 6.45277275e-01],
    [5.57242538e-01, 4.73307585e-02, 6.43443250e-01],
    [5.62738096e-01, 5.15448092e-02, 6.41509389e-01],
    [5.68201372e-01, 5.57776706e-02, 6.39477440e-01],
    [5.73631859e-01, 6.00281369e-02, 6.37348841e-01],
    [5.79028682e-01, 6.42955547e-02, 6.35126108e-01],
    [5.84391137e-01, 6.85790261e-02, 6.32811608e-01],
    [5.89718606e-01, 7.28775875e-02, 6.30407727e-01],
    [5.95010505e-01, 7.71902878e-02, 6.27916992e-01],
    [6.00266283e-01, 8.15161895e-02, 6.25342058e-01],
    [6.05485428e-01, 8.58543713e-02, 6.22685703e-01],
    [6.10667469e-01, 9.02039303e-02, 6.19950811e-01],
    [6.15811974e-01, 9.45639838e-02, 6.17140367e-01],
    [6.20918555e-01, 9.89336721e-02, 6.14257440e-01],
    [6.25986869e-01, 1.03312160e-01, 6.11305174e-01],
    [6.31016615e-01, 1.07698641e-01, 6.08286774e-01],
    [6.36007543e-01, 1.12092335e-01, 6.05205491e-01],
    [6.40959444e-01, 1.16492495e-01, 6.02064611e-01],
    [6.45872158e-01, 1.20898405e-01, 5.98867442e-01],
    [6.50745571e-01, 1.25309384e-01, 5.95617300e-01],
    [6.55579615e-01, 1.29724785e-01, 5.92317494e-01],
    [6.60374266e-01, 1.34143997e-01, 5.88971318e-01],
    [6.65129493e-01, 1.38566428e-01, 5.85582301e-01],
    [6.69845385e-01, 1.42991540e-01, 5.82153572e-01],
    [6.74522060e-01, 1.47418835e-01, 5.78688247e-01],
    [6.79159664e-01, 1.51847851e-01, 5.75189431e-01],
    [6.83758384e-01, 1.56278163e-01, 5.71660158e-01],
    [6.88318440e-01, 1.60709387e-01, 5.68103380e-01],
    [6.92840088e-01, 1.65141174e-01, 5.64521958e-01],
    [6.97323615e-01, 1.69573215e-01, 5.60918659e-01],
    [7.01769334e-01, 1.74005236e-01, 5.57296144e-01],
    [7.06177590e-01, 1.78437000e-01, 5.53656970e-01],
    [7.10548747e-01, 1.82868306e-01, 5.50003579e-01],
    [7.14883195e-01, 1.87298986e-01, 5.46338299e-01],
    [7.19181339e-01, 1.91728906e-01, 5.42663338e-01],
    [7.23443604e-01, 1.96157962e-01, 5.38980786e-01],
    [7.27670428e-01, 2.00586086e-01, 5.35292612e-01],
    [7.31862231e-01, 2.05013174e-01, 5.31600995e-01],
    [7.36019424e-01, 2.09439071e-01, 5.27908434e-01],
    [7.40142557e-01, 2.13863965e-01, 5.24215533e-01],
    [7.44232102e-01, 2.18287899e-01, 5.20523766e-01],
    [7.48288533e-01, 2.22710942e-01, 5.16834495e-01],
    [7.52312321e-01, 2.27133187e-01, 5.13148963e-01],
    [7.56303937e-01, 2.31554749e-01, 5.09468305e-01],
    [7.60263849e-01, 2.35975765e-01, 5.05793543e-01],
    [7.64192516e-01, 2.40396394e-01, 5.02125599e-01],
    [7.68090391e-01, 2.44816813e-01, 4.98465290e-01],
    [7.71957916e-01, 2.49237220e-01, 4.94813338e-01],
    [7.75795522e-01, 2.53657797e-01, 4.91170517e-01],
    [7.79603614e-01, 2.58078397e-01, 4.87539124e-01],
    [7.83382636e-01, 2.62499662e-01, 4.83917732e-01],
    [7.87132978e-01, 2.66921859e-01, 4.80306702e-01],
    [7.90855015e-01, 2.71345267e-01, 4.76706319e-01],
    [7.94549101e-01, 2.75770179e-01, 4.73116798e-01],
    [7.98215577e-01, 2.80196901e-01, 4.69538286e-01],
    [8.01854758e-01, 2.84625750e-01, 4.65970871e-01],
    [8.05466945e-01, 2.89057057e-01, 4.62414580e-01],
    [8.09052419e-01, 2.93491117e-01, 4.58869577e-01],
    [8.12611506e-01, 2.97927865e-01, 4.55337565e-01],
    [8.16144382e-01, 3.02368130e-01, 4.51816385e-01],
    [8.19651255e-01, 3.06812282e-01, 4.48305861e-01],
    [8.23132309e-01, 3.11260703e-01, 4.44805781e-01],
    [8.26587706e-01, 3.15713782e-01, 4.41315901e-01],
    [8.30017584e-01, 3.20171913e-01, 4.37835947e-01],
    [8.33422053e-01, 3.24635499e-01, 4.34365616e-01],
    [8.36801237e-01, 3.29104836e-01, 4.30905052e-01],
    [8.40155276e-01, 3.33580106e-01, 4.27454836e-01],
    [8.43484103e-01, 3.38062109e-01, 4.24013059e-01],
    [8.46787726e-01, 3.42551272e-01, 4.20579333e-01],
    [8.50066132e-01, 3.47048028e-01, 4.17153264e-01],
    [8.53319279e-01, 3.51552815e-01, 4.13734445e-01],
    [8.56547103e-01, 3.56066072e-01, 4.10322469e-01],
    [8.59749520e-01, 3.60588229e-01, 4.06916975e-01],
    [8.62926559e-01, 3.65119408e-01, 4.03518809e-01],
    [8.66077920e-01, 3.69660446e-01, 4.00126027e-01],
    [8.69203436e-01, 3.74211795e-01, 3.96738211e-01],
    [8.72302917e-01, 3.78773910e-01, 3.93354947e-01],
    [8.75376149e-01, 3.83347243e-01, 3.89975832e-01],
    [8.78422895e-01, 3.87932249e-01, 3.86600468e-01],
    [8.81442916e-01, 3.92529339e-01, 3.83228622e-01],
    [8.84435982e-01, 3.97138877e-01, 3.79860246e-01],
    [8.87401682e-01, 4.01761511e-01, 3.76494232e-01],
    [8.90339687e-01, 4.06397694e-01, 3.73130228e-01],
    [8.93249647e-01, 4.11047871e-01, 3.69767893e-01],
    [8.96131191e-01, 4.15712489e-01, 3.66406907e-01],
    [8.98983931e-01, 4.20391986e-01, 3.63046965e-01],
    [9.01807455e-01, 4.25086807e-01, 3.59687758e-01],
    [9.04601295e-01, 4.29797442e-01, 3.56328796e-01],
    [9.07364995e-01, 4.34524335e-01, 3.52969777e-01],
    [9.10098088e-01, 4.39267908e-01, 3.49610469e-01],
    [9.12800095e-01, 4.44028574e-01, 3.46250656e-01],
    [9.15470518e-01, 4.48806744e-01, 3.42890148e-01],
    [9.18108848e-01, 4.53602818e-01, 3.39528771e-01],
    [9.20714383e-01, 4.58417420e-01, 3.36165582e-01],
    [9.23286660e-01, 4.63250828e-01, 3.32800827e-01],
    [9.25825146e-01, 4.68103387e-01, 3.29434512e-01],
    [9.28329275e-01, 4.72975465e-01, 3.26066550e-01],
    [9.30798469e-01, 4.77867420e-01, 3.22696876e-01],
    [9.33232140e-01, 4.82779603e-01, 3.19325444e-01],
    [9.35629684e-01, 4.87712357e-01, 3.15952211e-01],
    [9.37990034e-01, 4.92666544e-01, 3.12575440e-01],
    [9.40312939e-01, 4.97642038e-01, 3.09196628e-01],
    [9.42597771e-01, 5.02639147e-01, 3.05815824e-01],
    [9.44843893e-01, 5.07658169e-01, 3.02433101e-01],
    [9.47050662e-01, 5.12699390e-01, 2.99048555e-01],
    [9.49217427e-01, 5.17763087e-01, 2.95662308e-01],
    [9.51343530e-01, 5.22849522e-01, 2.92274506e-01],
    [9.53427725e-01, 5.27959550e-01, 2.88883445e-01],
    [9.55469640e-01, 5.33093083e-01, 2.85490391e-01],
    [9.57468770e-01, 5.38250172e-01, 2.82096149e-01],
    [9.59424430e-01, 5.43431038e-01, 2.78700990e-01],
    [9.61335930e-01, 5.48635890e-01, 2.75305214e-01],
    [9.63202573e-01, 5.53864931e-01, 2.71909159e-01],
    [9.65023656e-01, 5.59118349e-01, 2.68513200e-01],
    [9.66798470e-01, 5.64396327e-01, 2.65117752e-01],
    [9.68525639e-01, 5.69699633e-01, 2.61721488e-01],
    [9.70204593e-01, 5.75028270e-01, 2.58325424e-01],
    [9.71835007e-01, 5.80382015e-01, 2.54931256e-01],
    [9.73416145e-01, 5.85761012e-01, 2.51539615e-01],
    [9.74947262e-01, 5.91165394e-01, 2.48151200e-01],
    [9.76427606e-01, 5.96595287e-01, 2.44766775e-01],
    [9.77856416e-01, 6.02050811e-01, 2.41387186e-01],
    [9.79232922e-01, 6.07532077e-01, 2.38013359e-01],
    [9.80556344e-01, 6.13039190e-01, 2.34646316e-01],
    [9.81825890e-01, 6.18572250e-01, 2.31287178e-01],
    [9.83040742e-01, 6.24131362e-01, 2.27937141e-01],
    [9.84198924e-01, 6.29717516e-01, 2.24595006e-01],
    [9.85300760e-01, 6.35329876e-01, 2.21264889e-01],
    [9.86345421e-01, 6.40968508e-01, 2.17948456e-01],
    [9.87332067e-01, 6.46633475e-01, 2.14647532e-01],
    [9.88259846e-01, 6.52324832e-01, 2.11364122e-01],
    [9.89127893e-01, 6.58042630e-01, 2.08100426e-01],
    [9.89935328e-01, 6.63786914e-01, 2.04858855e-01],
    [9.90681261e-01, 6.69557720e-01, 2.01642049e-01],
    [9.91364787e-01, 6.75355082e-01, 1.98452900e-01],
    [9.91984990e-01, 6.81179025e-01, 1.95294567e-01],
    [9.92540939e-01, 6.87029567e-01, 1.92170500e-01],
    [9.93031693e-01, 6.92906719e-01, 1.89084459e-01],
    [9.93456302e-01, 6.98810484e-01, 1.86040537e-01],
    [9.93813802e-01, 7.04740854e-01, 1.83043180e-01],
    [9.94103226e-01, 7.10697814e-01, 1.80097207e-01],
    [9.94323596e-01, 7.16681336e-01, 1.77207826e-01],
    [9.94473934e-01, 7.22691379e-01, 1.74380656e-01],
    [9.94553260e-01, 7.28727890e-01, 1.71621733e-01],
    [9.94560594e-01, 7.34790799e-01, 1.68937522e-01],
    [9.94494964e-01, 7.40880020e-01, 1.66334918e-01],
    [9.94355411e-01, 7.46995448e-01, 1.63821243e-01],
    [9.94140989e-01, 7.53136955e-01, 1.61404226e-01],
    [9.93850778e-01, 7.59304390e-01, 1.59091984e-01],
    [9.93482190e-01, 7.65498551e-01, 1.56890625e-01],
    [9.93033251e-01, 7.71719833e-01, 1.54807583e-01],
    [9.92505214e-01, 7.77966775e-01, 1.52854862e-01],
    [9.91897270e-01, 7.84239120e-01, 1.51041581e-01],
    [9.91208680e-01, 7.90536569e-01, 1.49376885e-01],
    [9.90438793e-01, 7.96858775e-01, 1.47869810e-01],
    [9.89587065e-01, 8.03205337e-01, 1.46529128e-01],
    [9.88647741e-01, 8.09578605e-01, 1.45357284e-01],
    [9.87620557e-01, 8.15977942e-01, 1.44362644e-01],
    [9.86509366e-01, 8.22400620e-01, 1.43556679e-01],
    [9.85314198e-01, 8.28845980e-01, 1.42945116e-01],
    [9.84031139e-01, 8.35315360e-01, 1.42528388e-01],
    [9.82652820e-01, 8.41811730e-01, 1.42302653e-01],
    [9.81190389e-01, 8.48328902e-01, 1.42278607e-01],
    [9.79643637e-01, 8.54866468e-01, 1.42453425e-01],
    [9.77994918e-01, 8.61432314e-01, 1.42808191e-01],
    [9.76264977e-01, 8.68015998e-01, 1.43350944e-01],
    [9.74443038e-01, 8.74622194e-01, 1.44061156e-01],
    [9.72530009e-01, 8.81250063e-01, 1.44922913e-01],
    [9.70532932e-01, 8.87896125e-01, 1.45918663e-01],
    [9.68443477e-01, 8.94563989e-01, 1.47014438e-01],
    [9.66271225e-01, 9.01249365e-01, 1.48179639e-01],
    [9.64021057e-01, 9.07950379e-01, 1.49370428e-01],
    [9.61681481e-01, 9.14672479e-01, 1.50520343e-01],
    [9.59275646e-01, 9.21406537e-01, 1.51566019e-01],
    [9.56808068e-01, 9.28152065e-01, 1.52409489e-01],
    [9.54286813e-01, 9.34907730e-01, 1.52921158e-01],
    [9.51726083e-01, 9.41670605e-01, 1.52925363e-01],
    [9.49150533e-01, 9.48434900e-01, 1.52177604e-01],
    [9.46602270e-01, 9.55189860e-01, 1.50327944e-01],
    [9.44151742e-01, 9.61916487e-01, 1.46860789e-01],
    [9.41896120e-01, 9.68589814e-01, 1.40955606e-01],
    [9.40015097e-01, 9.75158357e-01, 1.31325517e-01],
];
