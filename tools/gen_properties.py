"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


R = "src/renderer/mod.rs"
p("R01", "Progress stream is complete, ordered and truthful",
  "A render of N samples that is neither aborted nor abandoned delivers exactly N progress reports, the k-th reporting progress k/N, and then returns success; the last one reports progress 1, no time left and carries the finished image. Speed and remaining-time figures in a report agree with k samples done out of N. This holds whether the abort channel stays open or its sending side has been dropped, and for N=0 the render succeeds without any report.",
  ["inputs", "schedules", "configurations"], "every N, image size, worker count, image strategy, scene with a light, consumer speed",
  "The integration tests only look at the last report's image and at two values of the private time helpers; they never look at the sequence of reports.",
  [R, "src/lib.rs"], [("sample loop, output.send", R + " render")], ["messages received on the output channel and the return value of ray_trace"],
  [("sample", "number of completed samples", R + " render loop variable")])
p("R02", "A delivered image is the mean of exactly the completed samples of each pixel",
  "Every image delivered in report k has the configured width and height, and each of its pixels is the gamma-corrected mean of exactly k samples, taken at uniformly random positions inside that pixel's own footprint of the camera view: column x of a W wide image covers u in [x/max(W-1,1), (x+1)/max(W-1,1)], rows likewise, the first image row at the top of the view. No sample of any pixel is lost, duplicated or attributed to another pixel, whatever the number of worker threads, the order in which rows are finished, and the image size, including images one pixel wide or high.",
  ["schedules", "inputs", "configurations"], "every interleaving of the row workers, every worker count, image size and sample count",
  "Similarity of whole images at 95% cannot see a lost or duplicated contribution, and the tests run with whatever schedule happens.",
  [R], [("row tasks add to shared buffers under a mutex", R + " add_row_data"), ("scope ends before image is built", R + " pool.scope")], ["bytes of render_image of every report, with the worker threads gated at their random draws"],
  [("pixel_colors", "per pixel sum over completed samples", R)])
p("R03", "Images are delivered exactly when the chosen image strategy asks for them",
  "With the every-sample strategy each report carries an image; with the only-final strategy exactly the last report does; with an interval strategy of duration d (shorter than the time since 1970) the first and the last report do, and any other report carries one if more than d, and none if less than d, has elapsed since the last sample that got an image (time going backwards counts as no time elapsed). Images have the configured size. A configuration of defaults renders 300 by 200 pixels with 50 samples and only shows the final image.",
  ["inputs", "schedules", "histories"], "every strategy, duration, N and timing of the samples",
  "No test looks at which reports have images, and interval decisions depend on the history of earlier decisions.",
  [R], [("should_generate_image", R), ("last_image_generated_time", R + " render")], ["presence of render_image in each report together with the times of the samples", "RenderImageStrategy::should_generate_image"],
  [("last_image_generated_time", "time of the sample that last got an image", R)])
p("R04", "An abort signal stops the render promptly and cleanly",
  "Once a message is on the abort channel, no further sample is started: a signal that is there before the render starts yields no report at all, and one that arrives while sample k is being computed yields at most the report for k, without an image. The render then returns success, and reports delivered before the abort are unaffected.",
  ["schedules", "histories"], "every moment at which the abort can arrive relative to the samples, workers and reports",
  "No test aborts a render.",
  [R], [("abort.try_recv before each sample and before post processing", R + " render")], ["reports, return value and random draws after the abort was sent"])
p("R05", "Unusable input and lost consumers end in an error, never in a panic or hang",
  "A scene without any light is refused with an error and no report; when the receiving side of the output channel goes away, the render returns an error after the sample in progress instead of computing the remaining samples; an error raised by a post processor ends the render with that error; an invalid bloom kernel fraction (outside 0 to 0.5, or not a number) is refused at construction. In none of these cases does the library panic, hang or report success.",
  ["fault_sequences", "inputs", "schedules"], "every point at which the consumer can disappear, every scene without light, every chain of post processors, every bloom parameter",
  "One test covers the missing light; nothing covers a consumer that goes away or failing post processors.",
  [R, "src/post/bloom.rs", "src/post/oidn.rs"], [("Renderer::new light check", R), ("output.send(..)? and post processor ?", R)], ["return value of ray_trace, number of samples computed after the failure"])
p("R06", "Post processors are applied in order, to the image only",
  "Each delivered image is the result of applying the configured post processors, all of them, exactly once and in the configured order (the last one producing the image), to the pixel sums of the completed samples; with none configured the plain image is delivered. Post processing never feeds back into later samples: the image of report k is a function of samples 1..k alone, however many earlier images were post processed. A post processor that asks for them receives, for every pixel, the sums of the albedo and of the surface normal of the first surface seen (background colour and zero where nothing is seen) over the same samples.",
  ["configurations", "histories", "inputs"], "every chain of post processors, every image strategy and sample count",
  "Tests use chains of length 0 or 1, only look at the final image, and never look at the auxiliary buffers.",
  [R, "src/post/mod.rs", "src/post/oidn.rs", "src/post/nop.rs"], [("split_last, intermediate_post_process, post_process", R), ("needs_albedo_and_normal_colors", R)], ["delivered images", "buffers received by a stand-in denoiser library"],
  [("albedo_colors/normal_colors", "sums of auxiliary colours", R)])
p("R07", "Path light is the product of its surfaces, attenuated by distance",
  "The path tracing shader returns, for a path whose surfaces (an emitter at its end included) are at most as many as the configured bounce limit, the emitted (or background) colour multiplied by the colour of every surface passed, and black for any longer path. The emitter's attenuation factor and the total distance travelled from the start of the path to the emitter are passed on, so that the final colour is colour/(1+distance/half-length); the background is never attenuated. Contributions of diffuse bounces are limited to at most 3 per colour channel and are never not-a-number.",
  ["inputs", "histories"], "every sequence of surfaces along a path, every bounce limit, every attenuation",
  "Image similarity cannot separate a wrong bounce limit, factor or length on a single path.",
  ["src/renderer/shader.rs", R, "src/material/mod.rs"], [("PathTracingShader::shade recursion", "src/renderer/shader.rs"), ("AttenuatedColor::get_attenuated_color", "src/material/mod.rs")], ["Shader::shade on hits of constructed scenes"])
p("R08", "Preview shaders show albedo, normal and shaded albedo of the first surface",
  "The albedo shader returns the surface (or emitted) colour at the hit, the normal shader the shading normal at the hit, and the simple shader the surface colour scaled by 0.75 + 0.5 n.(1,1,-1), emitters unscaled; none of them depends on bounce depth, light sampling or distance and none is attenuated.",
  ["inputs"], "every surface, material, normal and direction",
  "The shaders are only used in similarity tests of single scenes.",
  ["src/renderer/shader.rs"], [("AlbedoShader, NormalShader, SimpleShader", "src/renderer/shader.rs")], ["Shader::shade"])
p("R09", "Renders in one process do not influence each other",
  "A renderer can render again and again, and several renders (of one renderer or of different ones) can run at the same time. Everything a render delivers - its reports, which of them carry an image, the bytes of the images, success or error - is what it delivers when it is the only one: a function of its own scene, configuration, samples and of what its own caller does. Earlier or concurrent renders, whether complete, aborted or abandoned by their caller, leave no trace in it.",
  ["histories", "schedules", "configurations"], "every sequence and every interleaving of renders, with every abort or loss of a caller in between",
  "Each test renders once, with a renderer of its own, to the end; state that survives a render or is shared between renders only shows in a later or concurrent one.",
  [R, "src/post/bloom.rs"], [("render takes &self: buffers, camera, clock and pool belong to the call", R + " render")], ["output channels and results of several Renderer::render calls, interleaved at their random draws"])
H = "src/hittable/"
p("G01", "The bounding volume hierarchy finds exactly the nearest hit",
  "For every list of objects (any number, order, nesting, duplicates or empty), every ray and every length interval, the hierarchy reports a hit if and only if some object in it is hit within the interval, and then it reports a hit at the smallest distance among all of them, with that object's surface data. Building it is deterministic in this sense however the build is parallelised.",
  ["inputs", "schedules"], "all finite object lists, rays and intervals",
  "One scene per test; a single misculled or mis-sorted subtree only shows for particular rays.",
  [H + "bvh.rs", "src/geo/mod.rs", "src/util/interval.rs"], [("new_bvh split", H + "bvh.rs"), ("hit with shrinking interval", H + "bvh.rs"), ("slab test", "src/geo/mod.rs Aabb::hit")], ["Bvh::hit against hit of every object"])
p("G02", "Bounding boxes enclose their objects and the slab test agrees with geometry",
  "The bounding box of every object contains every point of the object, is as tight as the object's extreme points except that flat axes get a small positive thickness, and the box of a hierarchy is the union of its members' boxes. A ray is reported to hit a box whenever it passes through the box's interior in front of its origin, and never when it clearly misses it.",
  ["inputs"], "all objects, transformations, boxes and rays, including axis-parallel rays and rays starting inside",
  "A handful of boxes is checked; flat, rotated and negative-direction cases are not.",
  ["src/geo/mod.rs", H + "quad.rs", H + "triangle.rs", H + "sphere.rs", H + "bvh.rs"], [("Aabb::new_from_*_points, combine, pad_if_needed, hit", "src/geo/mod.rs")], ["Hittable::bounding_box, Aabb::hit"])
p("G03", "Ray intersection with sphere, quad, triangle and box is geometrically exact",
  "A ray hits a sphere, quad or triangle if and only if the geometric intersection point lies on it at a length inside the given interval; the reported length, hit point and texture coordinates are those of the nearest such point, the normal is the unit geometric normal turned against the ray, and front-face tells whether the ray came from the outer side (for triangles: counterclockwise; for spheres: outside). A box consists of six outward faces that enclose exactly the given corners.",
  ["inputs"], "all shapes, transformations, rays and intervals",
  "The tests sample a few rendered scenes; no test checks a single intersection.",
  [H + "sphere.rs", H + "quad.rs", H + "triangle.rs"], [("hit of each shape", H)], ["Hittable::hit"])
p("G04", "Exactly the emitting objects are collected as lights",
  "The lights of a scene are exactly its emitting spheres, quads and triangles, each once, at any nesting depth of hierarchies and in groups of any size; fog and non-emitting objects are never lights.",
  ["inputs"], "all nested scenes",
  "Tests use one or two lights at the top level.",
  [H + "bvh.rs", H + "sphere.rs", H + "quad.rs", H + "triangle.rs", H + "constant_medium.rs"], [("get_lights", H)], ["Hittable::get_lights, Renderer::lights"])
p("G05", "Transformations compose in order and act rigidly on every shape",
  "Translation, rotation about each axis, scaling and lists of them map points as specified (lists apply their members first to last), directions are not translated, and a shape built with a transformation occupies exactly the transformed points of the shape built without it, with the same texture coordinates and facing.",
  ["inputs"], "all transformations, lists of them, and shapes",
  "Doc examples cover one point per transformation; shapes with combined transformations are only seen in similarity tests.",
  ["src/geo/transformation.rs", H + "quad.rs", H + "triangle.rs"], [("Transformer::transform", "src/geo/transformation.rs")], ["Transformer::transform, hits on transformed shapes"])
p("G06", "Vector, interval and ray algebra obeys its defining equations",
  "Vector arithmetic, dot and cross product, length, unit, reflection and axis access, interval containment, clamping, union, expansion and shifting, point-at-length and shortest distance between rays give the mathematically defined results for all finite arguments.",
  ["inputs"], "all arguments on a lattice of exactly representable values",
  "Doc examples sample one or two arguments per operation.",
  ["src/geo/vec3.rs", "src/util/interval.rs", "src/geo/mod.rs"], [("operators", "src/geo/vec3.rs"), ("Interval", "src/util/interval.rs")], ["public functions"])
M = "src/material/mod.rs"
p("M01", "Light sampling aims at the light with exactly the density it reports",
  "Every direction drawn towards a sphere, quad or triangle light hits that light, the drawn directions are distributed over the light with exactly the probability density (per solid angle) that is reported for them, and the reported density is positive and finite for directions that hit the light, zero for those that do not, and integrates to one. Several lights are chosen equally often and their densities averaged; lights and material sampling are mixed half and half. This holds from every point that is not in a flat light's own plane, including points inside a sphere light's volume.",
  ["inputs", "histories"], "all lights, positions and random draws",
  "A biased light sampler still gives images above the similarity threshold.",
  ["src/pdf.rs", H + "sphere.rs", H + "quad.rs", H + "triangle.rs"], [("pdf_value and random_direction", H), ("ContainerPdf, mix_generate, mix_value", "src/pdf.rs")], ["Hittable::random_direction, Hittable::pdf_value, pdf module"])
p("M02", "Fog scatters at exponentially distributed depths inside its boundary only",
  "A ray passing a fog volume of density d scatters inside the volume and inside the requested length interval or not at all, the distance (in space) it penetrates the volume within that interval is exponentially distributed with rate d, and a ray that does not cross the volume is never scattered. This holds for rays starting outside and inside, of any direction length, and for any closed convex boundary: a sphere, or a hierarchy of faces such as a box.",
  ["inputs", "histories"], "all boundaries, rays, intervals, densities and draws",
  "Fog only appears in one similarity test.",
  [H + "constant_medium.rs", H + "bvh.rs"], [("hit", H + "constant_medium.rs")], ["Hittable::hit of a constant medium"])
p("M03", "Mirrors reflect and glass refracts according to the laws of optics",
  "A metal scatters into the mirror direction, displaced by a random vector, uniform over a ball of the radius of its fuzz; glass of index n scatters either into the mirror direction or into the direction given by Snell's law (ratio 1/n entering the front face, n leaving), always the mirror direction beyond the critical angle, and otherwise the mirror direction with the probability of Schlick's approximation. The scattered ray starts at the hit point and carries the material's colour at the texture coordinate, for incoming rays of any length.",
  ["inputs", "histories"], "all directions, normals, indices, fuzz and random draws",
  "Only similarity tests; wrong ratios or probabilities change a few pixels.",
  [M, "src/geo/vec3.rs"], [("Metal::scatter, Dielectric::scatter, reflectance", M), ("reflect, refract", "src/geo/vec3.rs")], ["Material::scatter"])
p("M04", "Diffuse scattering is energy conserving and unbiased; emission is one-sided",
  "A matte or fog surface in surroundings of uniform brightness returns on average exactly its own colour times that brightness, whatever lights are sampled; its scattered rays start at the hit point, and a matte surface gives weight only to directions on the normal's side. An emitter gives its colour on its front side and black on its back side and never scatters; a blend of two materials behaves as the second with probability equal to the blend factor and as the first otherwise.",
  ["inputs", "histories"], "all normals, lights, blends and random draws",
  "A biased estimator still gives similar images.",
  [M, "src/pdf.rs"], [("Lambertian, Isotropic, DiffuseLight, Blend scatter", M)], ["Material::scatter"])
p("M05", "Random helpers stay in range and have the distribution they promise",
  "Random floats lie in the half-open range asked for, random indices are uniform over the elements, points drawn in the unit sphere or disc lie inside and are uniform there, unit vectors and the sphere density are uniform over all directions, and cosine-weighted directions lie on the normal's side with density proportional to the cosine that is reported for them.",
  ["inputs", "histories"], "all draws, including the extreme values of the generator",
  "Existing tests draw 100 values and check ranges of a few helpers.",
  ["src/random.rs", "src/geo/vec3.rs", "src/pdf.rs", "src/geo/mod.rs"], [("random_*", "src/geo/vec3.rs"), ("Onb", "src/geo/mod.rs")], ["public functions"])
p("T01", "Texture lookup maps coordinates to the right texel",
  "A solid colour is the same everywhere; an image texture gives the texel in column min(floor(u*width),width-1) and row min(floor((1-v)*height),height-1), row 0 being the top one, after the magnitude of each coordinate is reduced modulo 1, and no finite coordinate makes the lookup fail, for every image size including one texel. Channel values map linearly so that byte 255 is 1 and 0 is 0, in red, green, blue order.",
  ["inputs"], "all images and coordinates",
  "Textures appear only in similarity tests.",
  ["src/material/texture.rs", "src/util/rgb_color.rs"], [("ImageMap::color", "src/material/texture.rs")], ["Texture::color"])
p("T02", "Bump images become the right normal maps",
  "A loaded bump image is treated as a height map exactly when more of its pixels are grey (channels within 5 %) than encode a vector of unit length (within 5 %; byte b encodes 2b/255-1), and as a normal map otherwise; a normal map is used unchanged, and a height map is converted to a normal map of the same size whose normals lean away from rising heights (Sobel gradients with edge pixels repeated), flat regions giving the straight-up normal. Unreadable files give an error naming the file.",
  ["inputs"], "all images",
  "Two images are classified in tests; converted values are never checked.",
  ["src/material/texture.rs", "src/util/height_map.rs"], [("load_bump_map", "src/material/texture.rs"), ("to_normal_map", "src/util/height_map.rs")], ["load_normal_texture, to_normal_map"])
p("T03", "Normal maps tilt the shading normal in the surface's texture frame",
  "A straight-up normal map value leaves the shading normal equal to the geometric normal on every shape, and a tilted unit value (a,b,c) gives the unit normal a*T + b*B + c*N with T and B the unit directions of increasing u and v on quads and triangles (on spheres: the horizontal tangent eastwards as seen in the texture frame and its perpendicular), independent of the size of the shape. Materials without a normal map always use the geometric normal.",
  ["inputs"], "all shapes, sizes, texture coordinates and map values",
  "Only similarity tests on unit sized shapes.",
  [M, H + "sphere.rs", H + "quad.rs", H + "triangle.rs"], [("transform_normal_by_map", M), ("Onb of hits", H)], ["RayHit::normal"])
p("P01", "Colour conversion is monotone, gamma corrected and clamped",
  "Converting a colour sum over n samples to a byte yields floor(256*sqrt(sum/n)) per channel, limited to 255, in red, green, blue order; zero and not-a-number become 0, infinity 255, and no input makes it panic or wrap around.",
  ["inputs"], "all colour sums and sample counts",
  "Two colours are tested.",
  ["src/util/rgb_color.rs", "src/post/mod.rs"], [("to_rgb_color, to_float", "src/util/rgb_color.rs")], ["to_rgb_color, to_float"])
p("P02", "Bloom spreads bright pixels only, symmetrically and without moving the image",
  "Bloom adds to each pixel a Gaussian blur (separable, normalised weights, edge pixels repeated, radius the given fraction of the image width) of exactly those pixels whose mean brightness reaches the threshold, with that brightness limited to the given maximum; pixels out of reach of bright ones are unchanged. The result scales with the number of samples, so that it depends on mean colours only, and holds for every image shape.",
  ["inputs", "configurations"], "all images, kernel sizes, thresholds, maxima and sample counts",
  "One image similarity test.",
  ["src/post/bloom.rs", "src/util/gaussian.rs"], [("intermediate_post_process", "src/post/bloom.rs"), ("create_gaussian_blur_weights", "src/util/gaussian.rs")], ["PostProcessor::intermediate_post_process, post_process"])
p("C01", "The camera maps view coordinates to rays as configured",
  "For every camera, view coordinate (u,v) gives a ray through the point of the focus plane at (u,v) between the lower left and upper right corner of the view, whose plane goes through the look-at point, whose vertical opening is the configured angle, whose aspect is width over height and whose up side follows the up vector. Rays start at the camera position, displaced within the lens plane by at most half the aperture (uniformly over the disc), and all rays of one (u,v) meet in the same focus point. What a configuration leaves out is 50 degrees, no aperture, positions in the origin and an up vector of +y.",
  ["inputs", "histories"], "all cameras, image sizes, view coordinates and lens draws",
  "Cameras only appear in similarity tests.",
  ["src/camera.rs"], [("Camera::new, get_ray", "src/camera.rs")], ["Camera::get_ray"])
p("L01", "Loaded models keep every face, vertex, texture coordinate and material",
  "Loading an obj file yields exactly one triangle per triangle of the file (plane convex polygons split into triangles covering the same area), with the file's vertices after the given transformation, its texture coordinates, and the material assigned to it in the file: diffuse colour, diffuse texture and bump map; faces without material get the given default material, or white matte if none is given. This holds for any number of objects, faces and materials.",
  ["inputs"], "all models",
  "A few models are rendered and compared by similarity.",
  ["src/loader/obj.rs"], [("Obj::load, material map", "src/loader/obj.rs")], ["hits on the loaded model"])
p("L02", "Unreadable models, materials and textures give errors that name the file",
  "Loading fails with an error naming the file concerned, and never panics or silently substitutes, when the model file is missing or malformed, its material library is missing or malformed, or a referenced texture or bump map is missing or undecodable; otherwise it succeeds.",
  ["fault_sequences", "inputs"], "every combination of missing or damaged files",
  "Four single faults are tested.",
  ["src/loader/obj.rs", "src/material/texture.rs"], [("map_err chains", "src/loader/obj.rs")], ["Loader::load"])
p("Q01", "Rendered radiance converges to the physically correct image",
  "As the number of samples grows the delivered image converges to the solution of the rendering equation for the scene.",
  ["inputs"], "all scenes", "Only finite sample counts can be rendered.",
  [R, "src/renderer/shader.rs"], [("Monte Carlo estimation", "src/renderer/shader.rs")], ["delivered image for large N"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
