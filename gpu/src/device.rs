//! A software Vulkan device.

use futures::executor::block_on;
use std::borrow::Cow;

pub struct Device {
    pub device: wgpu::Device,
    pub queue: wgpu::Queue,
    pub name: String,
}

pub enum Binding<'a> {
    Read(&'a [u8]),
    /// Initial content; given back.
    Write(&'a [u8]),
    /// Content, dynamic offset, and size of the part to show.
    Uniform(&'a [u8], usize, usize),
}

impl Device {
    pub fn new() -> Option<Device> {
        let instance = wgpu::Instance::new(wgpu::InstanceDescriptor { backends: wgpu::Backends::VULKAN, ..Default::default() });
        let adapter = block_on(instance.request_adapter(&wgpu::RequestAdapterOptions::default()))?;
        let features = adapter.features() & wgpu::Features::SHADER_F64;
        let (device, queue) = block_on(adapter.request_device(
            &wgpu::DeviceDescriptor {
                label: None,
                required_features: features,
                required_limits: wgpu::Limits::default(),
                memory_hints: wgpu::MemoryHints::Performance,
            },
            None,
        ))
        .ok()?;
        device.on_uncaptured_error(Box::new(|_| ()));
        Some(Device { device, queue, name: adapter.get_info().name })
    }

    pub fn doubles(&self) -> bool {
        self.device.features().contains(wgpu::Features::SHADER_F64)
    }

    /// A pipeline with the given kinds of bindings.
    pub fn pipeline(&self, module: naga::Module, kinds: &[wgpu::BufferBindingType]) -> Result<(wgpu::ComputePipeline, wgpu::BindGroupLayout), String> {
        self.device.push_error_scope(wgpu::ErrorFilter::Validation);
        let cs = self.device.create_shader_module(wgpu::ShaderModuleDescriptor {
            label: None,
            source: wgpu::ShaderSource::Naga(Cow::Owned(module)),
        });
        let entries: Vec<_> = kinds
            .iter()
            .enumerate()
            .map(|(i, ty)| wgpu::BindGroupLayoutEntry {
                binding: i as u32,
                visibility: wgpu::ShaderStages::COMPUTE,
                ty: wgpu::BindingType::Buffer {
                    ty: *ty,
                    has_dynamic_offset: *ty == wgpu::BufferBindingType::Uniform,
                    min_binding_size: None,
                },
                count: None,
            })
            .collect();
        let bgl = self.device.create_bind_group_layout(&wgpu::BindGroupLayoutDescriptor { label: None, entries: &entries });
        let layout = self.device.create_pipeline_layout(&wgpu::PipelineLayoutDescriptor {
            label: None,
            bind_group_layouts: &[&bgl],
            push_constant_ranges: &[],
        });
        let p = self.device.create_compute_pipeline(&wgpu::ComputePipelineDescriptor {
            label: None,
            layout: Some(&layout),
            module: &cs,
            entry_point: "main",
            cache: None,
            compilation_options: Default::default(),
        });
        match block_on(self.device.pop_error_scope()) {
            Some(e) => Err(e.to_string()),
            None => Ok((p, bgl)),
        }
    }

    /// Runs the shader once; the content of the written buffers.
    pub fn dispatch(&self, p: &(wgpu::ComputePipeline, wgpu::BindGroupLayout), binds: &[Binding]) -> Result<Vec<Vec<u8>>, String> {
        self.device.push_error_scope(wgpu::ErrorFilter::Validation);
        let mut bufs = Vec::new();
        let mut outs = Vec::new();
        let mut dynamic = Vec::new();
        for b in binds {
            let (data, usage) = match b {
                Binding::Read(d) => (d, wgpu::BufferUsages::STORAGE),
                Binding::Write(d) => (d, wgpu::BufferUsages::STORAGE | wgpu::BufferUsages::COPY_SRC),
                Binding::Uniform(d, _, _) => (d, wgpu::BufferUsages::UNIFORM),
            };
            let size = (data.len().max(4) as u64).div_ceil(4) * 4;
            let buf = self.device.create_buffer(&wgpu::BufferDescriptor {
                label: None,
                size,
                usage: usage | wgpu::BufferUsages::COPY_DST,
                mapped_at_creation: false,
            });
            let mut data = data.to_vec();
            data.resize(size as usize, 0);
            self.queue.write_buffer(&buf, 0, &data);
            if let Binding::Write(_) = b {
                let cpu = self.device.create_buffer(&wgpu::BufferDescriptor {
                    label: None,
                    size,
                    usage: wgpu::BufferUsages::MAP_READ | wgpu::BufferUsages::COPY_DST,
                    mapped_at_creation: false,
                });
                outs.push((bufs.len(), cpu, size));
            }
            bufs.push(buf);
        }
        let mut entries = Vec::new();
        for (i, b) in binds.iter().enumerate() {
            let resource = match b {
                Binding::Uniform(_, off, n) => {
                    dynamic.push(*off as u32);
                    wgpu::BindingResource::Buffer(wgpu::BufferBinding {
                        buffer: &bufs[i],
                        offset: 0,
                        size: std::num::NonZeroU64::new(*n as u64),
                    })
                }
                _ => bufs[i].as_entire_binding(),
            };
            entries.push(wgpu::BindGroupEntry { binding: i as u32, resource });
        }
        let group = self.device.create_bind_group(&wgpu::BindGroupDescriptor { label: None, layout: &p.1, entries: &entries });
        let mut enc = self.device.create_command_encoder(&Default::default());
        {
            let mut pass = enc.begin_compute_pass(&Default::default());
            pass.set_pipeline(&p.0);
            pass.set_bind_group(0, &group, &dynamic);
            pass.dispatch_workgroups(1, 1, 1);
        }
        for (i, cpu, size) in &outs {
            enc.copy_buffer_to_buffer(&bufs[*i], 0, cpu, 0, *size);
        }
        self.queue.submit(std::iter::once(enc.finish()));
        if let Some(e) = block_on(self.device.pop_error_scope()) {
            return Err(e.to_string());
        }
        for (_, cpu, _) in &outs {
            cpu.slice(..).map_async(wgpu::MapMode::Read, |_| ());
        }
        self.device.poll(wgpu::Maintain::Wait);
        Ok(outs.iter().map(|(_, cpu, _)| cpu.slice(..).get_mapped_range().to_vec()).collect())
    }
}
